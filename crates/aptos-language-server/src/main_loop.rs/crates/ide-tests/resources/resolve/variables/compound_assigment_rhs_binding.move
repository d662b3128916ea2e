module 0x1::m {
    fun main() {
        let x = 1;
        let y = 2;
          //X
        x += y;
           //^
    }
}        