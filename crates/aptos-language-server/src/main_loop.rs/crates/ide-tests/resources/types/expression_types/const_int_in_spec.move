module 0x1::M {
    const MY_INT: u8 = 1;
    spec module {
        MY_INT;
        //^ num
    }
}    