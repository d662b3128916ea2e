module aptos_framework::m1 {}
                      //X
module 0x1::m {
    use 0x1::m1;
           //^
}        