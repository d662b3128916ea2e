module 0x1::m {
          //X  
    fun main() {
    }
    #[test(location=0x1::m)]
                       //^
    fun test_main() {
        
    }
}        