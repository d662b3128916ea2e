module 0x1::m {
    use aptos_framework
       //^ unresolved
}        