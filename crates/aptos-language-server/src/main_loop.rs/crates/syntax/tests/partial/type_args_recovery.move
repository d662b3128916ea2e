module 0x1::type_args_recovery {
    struct S {
        field: T<a,b,c<x<y>>,,>,
    }
}
