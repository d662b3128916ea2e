module 0x1::m {
    fun main() {
        for (i in 1..10) {
            i;
          //^ integer  
        };
    }
}        