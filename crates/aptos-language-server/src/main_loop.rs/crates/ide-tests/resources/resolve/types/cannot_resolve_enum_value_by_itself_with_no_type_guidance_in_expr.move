module 0x1::m {
    enum Ss { One }
    fun main() {
        One;
      //^ unresolved  
    }
}        