module 0x1::m {
    spec module {
        addr;
        //^ address
        let addr = @0x1;
    }
}        