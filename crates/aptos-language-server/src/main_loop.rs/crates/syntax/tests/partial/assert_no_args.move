module 0x1::assert_no_args {
    fun main() {
        assert!
    }
}
