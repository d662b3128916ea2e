module 0x1::m {
    fun main() {
        let a = 1;
        a == 2u8;
        a;
      //^ u8  
    }
}        