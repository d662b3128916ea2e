module 0x1::m {
    fun main() {
        let select_f = 1;
              //X
        select_f(1);
        //^
    }
}