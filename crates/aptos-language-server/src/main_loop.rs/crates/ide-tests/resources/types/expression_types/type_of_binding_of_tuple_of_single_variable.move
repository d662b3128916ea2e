module 0x1::m {
    fun call() {
        let (a) = 1;
        a;
      //^ integer  
    }
}        