module 0x1::m {
    spec module {
        assert 1 <= MAX_U128;
                       //^ num
    }
}        