spec 0x1::main {
    spec main(a: u8, b: u8, _: u8, d: u8, call<>: u8, f: u8) {
        let a = 1;
    }
}