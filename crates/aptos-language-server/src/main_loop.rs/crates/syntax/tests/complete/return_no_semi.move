module 0x1::return_no_semi {
    fun main() {
        return
        abort 61
    }
}
