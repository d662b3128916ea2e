module 0x1::m {
    fun match() {}
      //X
    fun main() {
        match();
          //^
    }
}