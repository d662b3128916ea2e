module 0x1::path_expr_with_generics {
    fun main() {
        a < b && b > 2;
        call<u8>();
    }
}
