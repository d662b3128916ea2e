module 0x1::path_underscore {
    fun main() {
        let _;
        _;
        (a, _);
    }
}
