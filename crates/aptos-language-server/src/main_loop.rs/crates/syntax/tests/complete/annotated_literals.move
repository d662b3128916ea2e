script {
    fun main() {
        (0x1: u128);
        (0x1u128: u128);
        (000001: u128);
        (0: u64);
        (10000: u64);
        (true: bool);
        (false: bool);
    }
}
