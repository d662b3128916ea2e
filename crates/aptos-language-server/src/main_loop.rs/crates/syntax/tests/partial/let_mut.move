module 0x1::let_mut {
    fun main() {
        let mut a = 1;
    }
}
