module 0x1::M {
    spec fun call(val: num) {
                 //X
        val;
       //^ 
    }
}    