module 0x1::m {
    fun call<T>
           //X 
            () acquires T {}
                      //^
}