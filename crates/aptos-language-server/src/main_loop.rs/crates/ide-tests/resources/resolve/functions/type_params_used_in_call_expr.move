module 0x1::m {
    fun convert<T>() {
              //X
        call<T>()
           //^
    }
}