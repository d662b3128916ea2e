module 0x1::postfix_exprs {
    fun main() {
        call();
        a.field;
        a.call();
        a[1];
        vector[1];
    }
}
