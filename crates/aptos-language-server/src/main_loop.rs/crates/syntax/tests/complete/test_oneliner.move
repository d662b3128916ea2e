module 0x1::test_oneliner {
    #[test, expected_failure(abort_code = 0)]
    fun test_main() {

    }
}
