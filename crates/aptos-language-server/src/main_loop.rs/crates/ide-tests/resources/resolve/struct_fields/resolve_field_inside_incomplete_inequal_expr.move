module 0x1::m {
    struct S { val: u8 }
              //X
    fun main() {
        let s: S;
        assert!(s.val !=)
                 //^
    }
}        