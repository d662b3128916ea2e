module 0x1::attribute_on_import {
    #[test]
    use 0x1::M;
}
