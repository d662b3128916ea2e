module 0x1::recover_call_expr_args {
    fun main() {
        call(;
        call(
        let a = 1;
        call(
    }
}
