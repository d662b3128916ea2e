module 0x1::m {
    fun main(degree: u8) {
        spec {
            degree;
            //^ num
        }
    }
}        