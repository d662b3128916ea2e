module 0x1::item_recovery_struct {
    struct { }
    struct <T> has
    struct S has {}
    struct S has copy,
    struct S has copy,, {}
    struct S { field: , field2: }
}
