module 0x1::function_values_lambda_abilities_no_return {
    struct S {
        place_maker_order_f: |address, M| has drop + copy,
    }
}
