module 0x1::acquires_recovery {
    fun m() acquires {
    }
    fun m() acquires;
    fun m() acquires T::;
    fun m() acquires T::
    fun m() acquires T:: {}
}
