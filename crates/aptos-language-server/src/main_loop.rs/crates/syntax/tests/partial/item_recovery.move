module 0x1
module 0x1::
module 0x1::item
module std::item

module 0x1::item_recovery {
    unknown
    enum
    fun
    struct
    spec
    spec {}
    spec ref
}
    unknown
    script
    spec
    spec ref
    spec 0x1::ref


