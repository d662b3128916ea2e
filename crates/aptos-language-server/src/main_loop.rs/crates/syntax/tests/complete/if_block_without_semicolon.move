module 0x1::if_block_without_semicolon {
    fun main() {
        if (true) {}
        let a = 1;
    }
}
