module 0x1::M {
    fun main(s: signer) {
        &s;
      //^ &signer 
    }
}    