module 0x1::unclosed_tuple_pat {
    fun main() {
        let (;
        let (
        let (a;
        let (a
    }
}
