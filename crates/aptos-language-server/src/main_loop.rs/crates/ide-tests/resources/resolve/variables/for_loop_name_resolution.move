module 0x1::m {
    fun main() {
        for (ind in 0..10) {
            //X
            ind;
            //^
        }
    }
}        