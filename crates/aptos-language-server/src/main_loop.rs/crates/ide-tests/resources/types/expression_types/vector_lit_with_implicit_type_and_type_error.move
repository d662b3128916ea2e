module 0x1::main {
    fun main() {
        let vv = vector[1u8, 1u64];
        vv;
       //^ vector<u8>   
    }
}        