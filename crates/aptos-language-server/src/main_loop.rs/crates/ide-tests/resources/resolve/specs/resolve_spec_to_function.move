module 0x1::M {
    fun length(): u8 { 1 }
       //X
    spec length {
         //^   
    }
}