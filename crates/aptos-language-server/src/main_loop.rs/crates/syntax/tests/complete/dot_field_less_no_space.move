module 0x1::dot_field_less_no_space {
    fun main() {
        staking_data.amount<release_amount;
        ido_jujube.cliamed_amount<=ido_jujube.total_amount;
    }
}
