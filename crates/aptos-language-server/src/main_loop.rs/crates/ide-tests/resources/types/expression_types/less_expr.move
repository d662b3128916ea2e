script {
    fun main() {
        (1 < 1);
      //^ bool
    }
}    