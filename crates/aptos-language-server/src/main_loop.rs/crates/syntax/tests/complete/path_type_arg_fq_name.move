module 0x1::path_type_arg_fq_name {
    const S: MyType<0x1::m::MyInnerType> = 1;
}
