module 0x1::recover_tuple_pat {
    fun main() {
        let (a,,a,,1,) = 1;
    }
}
