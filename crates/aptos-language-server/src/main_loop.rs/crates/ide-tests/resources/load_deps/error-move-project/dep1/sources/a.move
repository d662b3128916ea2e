module dep1::a {
    struct A has drop {
        x : u128
    }
}