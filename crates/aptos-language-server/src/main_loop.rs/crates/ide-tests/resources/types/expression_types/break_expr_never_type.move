module 0x1::m {
    fun main() {
        while (true) {
            break  
            //^ <never>
        }
    }
}        