module 0x1::main {
    fun call(a: (u8)) {
        a;
      //^ u8  
    }
}        