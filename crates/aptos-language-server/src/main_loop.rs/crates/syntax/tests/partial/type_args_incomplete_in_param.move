module 0x1::type_args_incomplete_in_param {
    fun main(asset_type: Object<Metadata) {
    }
}
