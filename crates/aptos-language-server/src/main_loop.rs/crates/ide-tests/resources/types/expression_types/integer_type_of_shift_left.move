module 0x1::m {
    fun main() {
        let a = 1u8;
        (a << 32);
      //^ u8  
    }
}        