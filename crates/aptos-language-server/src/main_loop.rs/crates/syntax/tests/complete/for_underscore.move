module 0x1::for_underscore {
    fun main() {
        for (_ in 0..10) {

        };
    }
}
