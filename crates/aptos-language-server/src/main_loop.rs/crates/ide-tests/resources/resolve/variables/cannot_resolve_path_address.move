module 0x1::m {
    fun main() {
        0x1::;
        //^ unresolved
    }
}        