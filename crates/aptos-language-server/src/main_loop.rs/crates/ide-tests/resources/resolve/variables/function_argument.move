script {
    fun main(account: &signer) {
           //X
        account;
      //^
    }
}