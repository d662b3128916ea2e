module 0x1::m {
    fun call(): u8 {
      //X
        1
    }
    
    fun main() {
        call();
      //^
    }
}