module 0x1::M {
    spec schema SS {
        val: num;
        val;
        //^ num
    }
}    