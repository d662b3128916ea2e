module 0x1::m {
    fun main<Token>()
           //X
        : Token {}
        //^
}