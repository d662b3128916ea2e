module 0x1::enum_recovery {
    enum
    enum S
    enum S<T>
    fun main() {}
}
