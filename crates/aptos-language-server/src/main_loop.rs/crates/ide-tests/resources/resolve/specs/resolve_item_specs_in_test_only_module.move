#[test_only]
module 0x1::m {
    public fun simple_share(o: Obj) {
               //X
    }
    spec simple_share {
            //^
    }

}