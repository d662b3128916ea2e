module 0x1::M {
    fun convert<T>() {
              //X
        1 as T
           //^
    }
}