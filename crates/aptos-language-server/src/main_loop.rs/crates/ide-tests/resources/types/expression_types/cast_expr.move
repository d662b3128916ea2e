script {
    fun main() {
        (1 as u8);
      //^ u8
    }
}    