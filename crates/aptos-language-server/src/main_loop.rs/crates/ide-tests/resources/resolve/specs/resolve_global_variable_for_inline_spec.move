module 0x1::m {
    spec module {
        global supply<CoinType>: num;
               //X
    }
    fun main() {
        spec {
            assert supply<CoinType> == 1;
                      //^    
        }
    }
}        