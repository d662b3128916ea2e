script {
    fun main() {
        copy 1u8;
      //^ u8
    }
}    