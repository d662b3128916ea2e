module 0x1::item_spec_signature {
    spec main<T, U: copy + store>(a: u8, b: &signer): &signer {
    }
}
