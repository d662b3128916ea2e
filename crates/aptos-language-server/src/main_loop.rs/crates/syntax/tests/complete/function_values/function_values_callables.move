module 0x1::function_values_callables {
    fun main() {
        (self.settle_trade_f)(taker, maker);
    }
}
