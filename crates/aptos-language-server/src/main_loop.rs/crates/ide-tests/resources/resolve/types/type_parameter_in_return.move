module 0x1::m {
    public fun remove<K: copy + drop, V>(
                                    //X
        val: V
    ): V {
     //^
        val
    }
}        