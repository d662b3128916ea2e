module 0x1::M {
    #[test(acc = @0x1)]
          //^
    fun test_add(acc: signer) {
                //X
    
    }
}    