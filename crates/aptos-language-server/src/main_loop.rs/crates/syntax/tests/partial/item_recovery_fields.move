module 0x1::item_recovery_fields {
    struct S {
        val0
        val1,
        val2:,
        val3: u8
        val5: vector<,
        val6: vector<T,
        val8: vector<T
    }
}
