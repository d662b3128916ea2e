module 0x1::m {
    spec schema S {}
    fun main() {
        S;
      //^ <unknown>  
    }
}        