module 0x1::M {
    fun call(n: u8) {}
    spec call {
        n;
      //^ num  
    }
}    