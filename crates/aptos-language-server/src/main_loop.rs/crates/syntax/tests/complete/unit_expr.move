module 0x1::unit_expr {
    fun main() {
        while (true) ();
        loop ();
        loop { () };
        ();
    }
}
