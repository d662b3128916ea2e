module 0x1::M {
    fun main() {
        (1 + 1u8);
      //^ u8  
    }
}    