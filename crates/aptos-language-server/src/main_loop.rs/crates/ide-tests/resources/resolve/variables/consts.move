module 0x1::M {
    const ENOT_GENESIS: u64 = 0;
        //X
    fun main() {
        let a = ENOT_GENESIS;
              //^
    }
}