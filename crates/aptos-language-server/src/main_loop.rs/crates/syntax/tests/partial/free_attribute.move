module 0x1::free_attribute {
    fun main() {
        let a = 1;
        #[test_only]
    }
}
