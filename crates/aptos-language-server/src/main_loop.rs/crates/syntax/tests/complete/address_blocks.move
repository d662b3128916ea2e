address 0x1 {
module m {
}
}
address 0x2 {
module m {
}
#[test_only]
module tests {
}
}