module 0x1::call_expr_complex_inequality {
    fun main() {
        bucket_index(self.num_buckets, entry.hash) != new_bucket_index;
    }
}
