module 0x1::M {
    fun m() {
        x"1234";
        //^ vector<u8>
    }
}    