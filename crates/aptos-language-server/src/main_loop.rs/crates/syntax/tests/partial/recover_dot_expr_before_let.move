module 0x1::recover_dot_expr_before_let {
    fun main() {
        self.
        let a = 1;
    }
}

