module 0x1::transaction {
              //X
}
module 0x1::main {
    use 0x1::transaction::{Self};
                          //^
}