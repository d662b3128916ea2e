module 0x1::imply_exprs {
    spec module {
        1 ==> 2;
        1 <==> 2;
    }
}
