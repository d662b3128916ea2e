module 0x1::m {
    spec module {
        let a: num;
        a;
      //^ num  
    }
}        