module 0x1::let_post_in_move_code {
    fun main() {
        let post = 1;
    }
}
