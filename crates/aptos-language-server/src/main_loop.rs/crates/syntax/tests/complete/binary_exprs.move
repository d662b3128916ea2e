module 0x1::binary_exprs {
    fun main() {
        1 + 1;
        1 - 1;
        1 * 1;
        1 / 1;
        1 % 1;

        1 ^ 1;
        1 & 1;
        1 | 1;

        1 << 1;
        1 >> 1;

        1 || 1;
        1 && 1;
        1 == 1;
        1 != 1;

        1 > 1;
        1 >= 1;
        1 < 1;
        1 <= 1;
    }
}
