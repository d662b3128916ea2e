module aptos_std::m {
          //X  
    fun main() {
    }
    #[test(location=aptos_std::m)]
                             //^
    fun test_main() {
        
    }
}        