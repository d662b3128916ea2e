module 0x1::vector_as_free_path {
    fun main() {
        let a = 1;
        vector
    }
}
