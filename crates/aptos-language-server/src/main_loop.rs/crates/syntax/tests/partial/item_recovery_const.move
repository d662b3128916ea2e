module 0x1::item_recovery_const {
    const C1
    const C1;
    const C2:
    const C2:;
    const C3: u8
    const C3: u8;
    const C5: u8 =;
    const C4: u8 =
    fun main() {}
}
