module 0x1::main {
    fun main() {
        let vv = vector[1];
        vv;
       //^ vector<integer>   
    }
}        