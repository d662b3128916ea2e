module 0x1::M {
    fun add(a: bool, b: bool) {
        (a + b);
      //^ <unknown>  
    }
}    