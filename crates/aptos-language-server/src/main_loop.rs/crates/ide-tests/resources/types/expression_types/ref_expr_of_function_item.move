module 0x1::m {
    fun call() {}
    fun main() {
        call;
      //^ <unknown>  
    }
}        