module 0x1::m {
    #[verify_only]
    fun call(): u8 { 1 }
       //X
    spec call {}
        //^
}        