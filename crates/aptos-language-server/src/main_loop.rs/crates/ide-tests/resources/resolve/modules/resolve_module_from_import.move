module 0x1::A {
          //X
}

module 0x1::B {
    use 0x1::A;
           //^
}