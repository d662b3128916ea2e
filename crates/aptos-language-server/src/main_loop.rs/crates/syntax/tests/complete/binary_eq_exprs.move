module 0x1::binary_eq_exprs {
    fun main() {
        a += 1;
        a -= 1;
        a *= 1;
        a /= 1;
        a %= 1;

        a ^= 1;
        a &= 1;
        a |= 1;

        a <<= 1;
        a >>= 1;
    }
}
