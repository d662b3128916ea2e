script {
    fun main() {
        move 1u8;
      //^ u8
    }
}    