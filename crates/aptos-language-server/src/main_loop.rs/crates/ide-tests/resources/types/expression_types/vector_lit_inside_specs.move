module 0x1::main {
    spec module {
        let vv = vector[1];
        vv;
       //^ vector<num>   
    }
}        