module 0x1::M {
    struct R<CoinType> {}
    fun main() {
        R {};
      //^ 0x1::M::R<<unknown>>  
    }
}