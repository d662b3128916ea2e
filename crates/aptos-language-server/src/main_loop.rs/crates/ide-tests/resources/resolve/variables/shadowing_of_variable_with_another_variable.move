script {
    fun main() {
        let z = 1;
        let z = z + 1;
          //X
        z;
      //^
    }
}