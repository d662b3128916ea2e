module 0x1::item_recovery_specs {
    spec fun
    spec fun main
    spec fun main()
    spec schema
    spec schema S
    spec schema S<T>
    spec module
    fun main() {
        spec
    }
}
