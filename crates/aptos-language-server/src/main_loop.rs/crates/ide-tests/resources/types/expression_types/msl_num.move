module 0x1::M {
    spec module {
        1;
      //^ num  
    }
}    