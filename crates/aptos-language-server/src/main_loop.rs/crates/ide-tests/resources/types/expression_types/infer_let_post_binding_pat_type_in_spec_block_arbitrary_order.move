module 0x1::m {
    spec module {
        addr;
        //^ address
        let post addr = @0x1;
    }
}        