module 0x1::module_before_if {
    fun main() {
        let a = curves::
        let b = curves::
        if (true) { 1 } else { 2 }
    }
}
