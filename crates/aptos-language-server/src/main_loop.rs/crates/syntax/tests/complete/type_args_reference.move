module 0x1::M {
    struct ResourceValidatorConfig {
        operator_account2: Option<&signer>,
    }
}
