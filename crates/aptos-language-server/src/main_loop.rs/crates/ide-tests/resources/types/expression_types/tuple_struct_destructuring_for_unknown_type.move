module 0x1::m {
    fun main() {
        let S(i, j) = s;
        i;
      //^ <unknown>  
    }
 }        