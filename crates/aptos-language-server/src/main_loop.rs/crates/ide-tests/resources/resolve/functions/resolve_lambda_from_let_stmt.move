module 0x1::m {
    fun main() {
        let select_f = |s|;
              //X
        select_f(1);
        //^
    }
}