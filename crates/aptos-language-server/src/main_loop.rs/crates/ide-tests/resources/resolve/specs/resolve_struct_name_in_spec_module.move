module 0x1::Module {
    struct MyStruct {}
          //X
}    
spec 0x1::Module {
    spec MyStruct {}
        //^
}