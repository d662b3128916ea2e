module 0x1::M {
    fun m() {
        (1u64, 1u64);
      //^ (u64, u64)  
    }
}    