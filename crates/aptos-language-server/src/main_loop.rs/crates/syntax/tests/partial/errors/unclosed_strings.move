module 0x1::unclosed_strings {
    fun main() {
        x";
        b";
        b"2423534;;;;
        ";
    }
}
