module 0x1::literals {
    fun main() {
        1;
        0x1;
        0xc0ffee;
        1u8;
        1u64;
        b"1234";
        true;
        false;
    }
}
