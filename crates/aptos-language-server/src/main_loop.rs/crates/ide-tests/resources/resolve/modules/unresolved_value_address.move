module 0x1::m {
    use 0x1::account;
        //^ unresolved
}        