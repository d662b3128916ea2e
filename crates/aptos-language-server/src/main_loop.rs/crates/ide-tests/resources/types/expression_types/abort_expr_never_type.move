module 0x1::m {
    fun main() {
        abort 1  
        //^ <never>
    }
}        