module 0x1::main {
    fun main() {
        (1 ^ 1);
      //^ integer  
    }
}        