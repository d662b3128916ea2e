script {
    fun main<T, U>() {
        let b: map<u8, u8;
    }
}
