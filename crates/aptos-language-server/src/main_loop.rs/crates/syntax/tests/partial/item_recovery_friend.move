module 0x1::item_recovery_friend {
    friend 0x1
    friend 0x1::
    friend 0x1::m
    fun
}
