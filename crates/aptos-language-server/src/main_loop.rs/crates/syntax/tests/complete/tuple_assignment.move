module 0x1::m {
    fun main() {
        (a, _) = (coin_zero<CallCoinType>(), 2);
    }
}