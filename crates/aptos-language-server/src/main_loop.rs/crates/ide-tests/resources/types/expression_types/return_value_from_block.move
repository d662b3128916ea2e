module 0x1::M {
    fun main() {
        let a = { 1u8 };
        a;
      //^ u8  
    }
}    