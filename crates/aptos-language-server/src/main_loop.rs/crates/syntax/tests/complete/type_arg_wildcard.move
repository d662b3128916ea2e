module 0x1::type_arg_wildcard {
    const A: vector<_> = 1;
}
