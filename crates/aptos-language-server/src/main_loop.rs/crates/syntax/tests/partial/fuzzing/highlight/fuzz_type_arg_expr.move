script {
    fun main() {
        call<u8, vector<8>>();
    }
}
