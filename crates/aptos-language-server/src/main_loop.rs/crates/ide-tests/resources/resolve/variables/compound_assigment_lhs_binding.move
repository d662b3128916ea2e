module 0x1::m {
    fun main() {
        let x = 1;
          //X
        x += 1;
      //^  
    }
}        