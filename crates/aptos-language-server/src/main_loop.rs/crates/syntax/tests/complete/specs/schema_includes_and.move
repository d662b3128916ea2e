module 0x1::schema_includes_lit {
    spec module {
        include MySchema && MySchema;
    }
}
