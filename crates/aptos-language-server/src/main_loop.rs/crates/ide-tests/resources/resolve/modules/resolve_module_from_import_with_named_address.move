module aptos_framework::m1 {}
                      //X
module 0x1::m {
    use aptos_framework::m1;
                       //^
}        