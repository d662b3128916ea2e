module 0x1::lambda_with_no_body {
    fun main() {
        |var: u8, var2: u8|;
    }
}
