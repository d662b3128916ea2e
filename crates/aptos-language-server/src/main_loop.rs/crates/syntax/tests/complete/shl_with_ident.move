module 0x1::shl_with_ident {
    fun main() {
        let left = x << actual_shift;
        let right = x >> actual_shift;
    }
}
