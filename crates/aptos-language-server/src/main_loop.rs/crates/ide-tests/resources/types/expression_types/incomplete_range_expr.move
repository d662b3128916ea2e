module 0x1::m {
    spec module {
        let a = 1..;
        a;
      //^ range<num>  
    }
}        