module 0x1::cast_expr_assignment {
    fun main() {
        a = a as u8;
    }
}
