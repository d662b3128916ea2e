module 0x1::main {}
