script {
    fun main() {
        !true;
      //^ bool
    }
}    