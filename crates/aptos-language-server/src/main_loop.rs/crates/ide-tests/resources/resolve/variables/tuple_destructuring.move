module 0x1::M {
    fun main() {
        let (a, b) = call();
           //X
        a;
      //^  
    }
}