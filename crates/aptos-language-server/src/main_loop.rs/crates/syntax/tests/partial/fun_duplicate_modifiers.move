module 0x1::fun_duplicate_modifiers {
    public public fun
}
