module 0x1::invalid_match_2 {
    fun main() {
        match (x) { 1 => 2 }
    }
}
