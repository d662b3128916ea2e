script {
    fun main(a: Pat<u8, vector<8>>) {
    }
}
