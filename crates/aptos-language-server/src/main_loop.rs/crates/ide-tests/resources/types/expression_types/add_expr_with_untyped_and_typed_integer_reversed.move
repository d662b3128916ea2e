module 0x1::M {
    fun main() {
        (1u8 + 1);
      //^ u8  
    }
}    