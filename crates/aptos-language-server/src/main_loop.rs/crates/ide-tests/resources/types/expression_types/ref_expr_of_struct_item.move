module 0x1::m {
    struct S {}
    fun main() {
        S;
      //^ <unknown>  
    }
}        