module 0x1::invalid_use_in_block {
    fun main() {
        use use std::string::{Self, };
        use *;
        use
        use std::
        use std::;
        use std::string::
        use std::string::{}
        use std::string::{a::}
        use std::string::{if};
        use std::string::{spec, ident};
        use std::string::{b"123"}
    }
}