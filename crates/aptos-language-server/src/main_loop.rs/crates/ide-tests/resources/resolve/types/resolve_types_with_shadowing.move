module 0x1::m {
    struct VestingContract {}
    fun main<VestingContract>() {
               //X
        let t: VestingContract;
                  //^
    }
}        