module 0x1::tuple_type_with_lambda_type {
    fun main() {
        let a: |(u8, |u8|)|;
    }
}
