module 0x1::dot_dot_pattern {
    fun main() {
        let S4  y: S3 { .. },.. } = x;
    }
}
