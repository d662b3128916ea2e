module 0x1::lambda_expr_with_wildcard {
    fun main() {
        |_| { 1 + 1 };
    }
}
