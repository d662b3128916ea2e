module 0x1::item_recovery_let {
    fun main() {
        let
        let a
        let a:
        let a: u8
        let a: u8<>
        let a: u8<T,,>
        let a: u8 =
        let a: u8 = 1
        let a: vector<
    }
}
