module 0x1::acquires_qual_path {
    fun main() acquires string::String {
    }
}
