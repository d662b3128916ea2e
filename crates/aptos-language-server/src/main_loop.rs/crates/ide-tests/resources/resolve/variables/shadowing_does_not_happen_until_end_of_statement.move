script {
    fun main(z: u8) {
           //X
        let z = z + 1;
              //^
    }
}