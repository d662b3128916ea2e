module 0x1::signed_integers {
    fun main() {
        1i8;
        -1i8;
        -1;
        -1i128;
        -0xff;
    }
}
