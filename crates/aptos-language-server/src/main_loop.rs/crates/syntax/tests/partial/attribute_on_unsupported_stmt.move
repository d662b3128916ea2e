module 0x1::free_attribute {
    fun main() {
        #[test_only]
        let a = 1;
    }
}
