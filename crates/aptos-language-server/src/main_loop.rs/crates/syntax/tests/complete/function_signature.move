module 0x1::function_signature {
    fun main<T>(a: u8, b: S<T>,): S<T> {}
}
