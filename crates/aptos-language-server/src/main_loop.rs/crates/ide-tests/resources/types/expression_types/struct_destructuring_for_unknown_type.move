module 0x1::m {
    fun main() {
        let S { i } = s;
        i;
      //^ <unknown>  
    }
 }        