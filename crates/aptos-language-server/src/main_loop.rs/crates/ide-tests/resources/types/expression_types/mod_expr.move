script {
    fun main() {
        (1u8 % 10);
      //^ u8
    }
}    