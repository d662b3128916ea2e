module 0x1::m {
          //X
    struct Option {}
    fun main(): 0x1::m::Option {}
                   //^
}        