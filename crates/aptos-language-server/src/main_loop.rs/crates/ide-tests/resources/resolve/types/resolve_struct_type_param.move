module 0x1::m {
    struct MyStruct<T> {
                  //X
        val: T
           //^
    }
}