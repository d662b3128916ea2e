module 0x1::M {
    struct S {}
         //X
    spec S {
       //^   
    }
}