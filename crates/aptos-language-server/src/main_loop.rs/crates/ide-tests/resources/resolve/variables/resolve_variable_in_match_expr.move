module 0x1::m {
    fun main() {
        let m = 1;
          //X
        match (m) {
             //^
        }
    }
}        