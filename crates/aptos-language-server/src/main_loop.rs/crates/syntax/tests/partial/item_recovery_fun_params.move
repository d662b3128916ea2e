module 0x1::item_recovery_fun_params {
    fun main(a, b, b:,, c::, d: u8+u8, e: u8) {}
}
