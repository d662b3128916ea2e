module 0x1::m {
    spec module {
        let a = 1..10;
        a;
      //^ range<num>   
    }
}        