module 0x1::m {
    #[test(std = @0x1)]
    fun test_address(std: &signer) {
                    //X
        std;
       //^ 
    }
}        