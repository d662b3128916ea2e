module 0x1::m {
    fun main() {
        while (true) {
            continue 
            //^ <never>
        }
    }
}        