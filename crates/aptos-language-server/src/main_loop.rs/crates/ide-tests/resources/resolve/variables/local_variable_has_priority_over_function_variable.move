script {
    fun main(z: u8) {
        let z = z + 1;
          //X
        z;
      //^  
    }
}    