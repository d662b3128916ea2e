script {
    fun main() {
        let z = 1;
          //X
        z;
      //^
    }
}