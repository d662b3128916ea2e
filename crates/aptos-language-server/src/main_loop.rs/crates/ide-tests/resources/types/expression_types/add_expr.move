script {
    fun main() {
        (1u8 + 1u8);
      //^ u8
    }
}    