module 0x1::let_expr_recovery {
    fun main() {
        let
        spec
        let
        spec
    }
}
