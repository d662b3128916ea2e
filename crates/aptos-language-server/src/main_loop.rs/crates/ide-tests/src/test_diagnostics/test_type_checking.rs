// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::ide_test_utils::diagnostics::check_diagnostics;
use expect_test::expect;

#[test]
fn test_incorrect_type_address_passed_when_signer_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun send(_account: &signer) {}
            fun main(addr: address) {
                send(addr);
                   //^^^^ err: Incompatible type 'address', expected '&signer'
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_type_u8_passed_where_signer_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun send(_account: &signer) {}
            fun main(addr: u8) {
                send(addr)
                   //^^^^ err: Incompatible type 'u8', expected '&signer'
            }
        }
    "#]]);
}

#[test]
fn test_no_errors_if_the_same_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun send(_account: &signer) {}
            fun main(acc: &signer) {
                send(acc)
            }
        }
    "#]]);
}

#[test]
fn test_mutable_reference_compatible_with_immutable_one() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Option<Element> {
                vec: vector<Element>
            }
            fun is_none<Element>(_t: &Option<Element>): bool {
                true
            }
            fun main<Element>(opt: &mut Option<Element>) {
                is_none(opt);
            }
        }
    "#]]);
}

#[test]
fn test_same_struct_but_different_generic_types() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Option<Element> {}
            fun is_none<Elem>(_t: Option<u64>): bool {
                true
            }
            fun main() {
                let opt = Option<u8> {};
                is_none(opt);
                      //^^^ err: Incompatible type '0x1::M::Option<u8>', expected '0x1::M::Option<u64>'
            }
        }
    "#]]);
}

#[test]
fn test_different_generic_types_for_references() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Option<Element> {}
            fun is_none<Elem>(_t: &Option<u64>): bool {
                true
            }
            fun main() {
                let opt = &Option<u8> {};
                is_none(opt);
                      //^^^ err: Incompatible type '&0x1::M::Option<u8>', expected '&0x1::M::Option<u64>'
            }
        }
    "#]]);
}

#[test]
fn test_immutable_reference_not_compatible_with_mutable_reference() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Option<OptElement> {
                vec: vector<OptElement>
            }
            fun is_none<NoneElement>(_t: &mut Option<NoneElement>): bool {
                true
            }
            fun main<Element>(opt: &Option<Element>) {
                is_none(opt);
                      //^^^ err: Incompatible type '&0x1::M::Option<Element>', expected '&mut 0x1::M::Option<Element>'
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_type_of_argument_with_struct_literal() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct A {}
            struct B {}

            fun use_a(_a: A) {}
            fun main() {
                use_a(B {});
                    //^^^^ err: Incompatible type '0x1::M::B', expected '0x1::M::A'
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_type_of_argument_with_call_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct A {}
            struct B {}

            fun use_a(_a: A) {}
            fun get_b(): B { B {} }

            fun main() {
                use_a(get_b())
                    //^^^^^^^ err: Incompatible type '0x1::M::B', expected '0x1::M::A'
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_type_of_argument_with_call_expr_from_different_module() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::Other {
            struct B {}
            public fun get_b(): B { B {} }
        }
        module 0x1::M {
            use 0x1::Other::get_b;

            struct A {}
            fun use_a(_a: A) {}

            fun main() {
                use_a(get_b())
                    //^^^^^^^ err: Incompatible type '0x1::Other::B', expected '0x1::M::A'
            }
        }
    "#]]);
}

#[test]
fn test_bytearray_is_vector_u8() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun send(_a: vector<u8>) {}
            fun main() {
                let a = b"deadbeef";
                send(a)
            }
        }
    "#]]);
}

#[test]
fn test_no_error_for_compatible_generic_with_explicit_parameter() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Diem<CoinType> has store { val: u64 }
            struct Balance<Token> has key {
                coin: Diem<Token>
            }

            fun value<CoinType: store>(_coin: &Diem<CoinType>) {}

            fun main<Token: store>() {
                let balance: Balance<Token>;
                let coin = &balance.coin;
                value<Token>(coin)
            }
        }
    "#]]);
}

#[test]
fn test_no_error_for_compatible_generic_with_inferred_parameter() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Diem<CoinType> has store { val: u64 }
            struct Balance<Token> has key {
                coin: Diem<Token>
            }

            fun value<CoinType: store>(_coin: &Diem<CoinType>) {}

            fun main<Token: store>() {
                let balance: Balance<Token>;
                let coin = &balance.coin;
                value(coin)
            }
        }
    "#]]);
}

#[test]
fn test_no_return_type_but_returns_integer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun call() {
                return 1;
                     //^ err: Incompatible type 'integer', expected '()'
            }
        }
    "#]]);
}

#[test]
fn test_no_return_type_but_returns_integer_with_expression() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun call() {
                return 1
                     //^ err: Incompatible type 'integer', expected '()'
            }
        }
    "#]]);
}

#[test]
fn test_if_statement_returns_unit() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun m() {
                if (true) {1} else {2};
            }
        }
    "#]]);
}

#[test]
fn test_block_expr_returns_unit() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun m() {
                {1};
            }
        }
    "#]]);
}

#[test]
fn test_error_on_code_block_if_empty_block_and_return_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun call(): u8 {}
                          //^ err: Incompatible type '()', expected 'u8'
        }
    "#]]);
}

#[test]
fn test_vector_push_back() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            native public fun push_back<Element>(v: &mut vector<Element>, e: Element);

            fun m<E: drop>(v: &mut vector<E>, x: E): u8 {
                push_back(v, x)
              //^^^^^^^^^^^^^^^ err: Incompatible type '()', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_if_condition_should_be_boolean() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun m() {
                if (1) 1;
                  //^ err: Incompatible type 'integer', expected 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_incompatible_types_in_if_branches() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun m() {
                if (true) {1} else {true};
                                  //^^^^ err: Incompatible type 'bool', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_no_type_error_with_explicit_generic_in_move_to() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Option<Element: store> has store {
                element: Element
            }
            public fun some<SomeElement: store>(e: SomeElement): Option<SomeElement> {
                Option { element: e }
            }
            struct Vault<VaultContent: store> has key {
                content: Option<VaultContent>
            }
            public fun new<Content: store>(owner: &signer,  content: Content) {
                move_to<Vault<Content>>(
                    owner,
                    Vault { content: some(content) }
                )
            }
        }
    "#]]);
}

#[test]
fn test_type_check_incompatible_constraints() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct C {}
            struct D {}
            native fun new<Content>(a: Content, b: Content): Content;
            fun m() {
                new(C {}, D {});
                        //^^^^ err: Incompatible type '0x1::M::D', expected '0x1::M::C'
            }
        }
    "#]]);
}

#[test]
fn test_error_if_resolved_type_requires_a_reference() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            native fun index_of<Element>(v: &vector<Element>, e: &Element): (bool, u64);
            fun m() {
                let ids: vector<u64>;
                index_of(&ids, 1u64);
                             //^^^^ err: Incompatible type 'u64', expected '&u64'
            }
        }
    "#]]);
}

#[test]
fn test_return_generic_tuple_from_nested_callable() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct MintCapability<phantom CoinType> has key, store {}
            struct BurnCapability<phantom CoinType> has key, store {}

            public fun register_native_currency<FCoinType>(): (MintCapability<FCoinType>, BurnCapability<FCoinType>) {
                register_currency<FCoinType>()
            }
            public fun register_currency<FCoinType>(): (MintCapability<FCoinType>, BurnCapability<FCoinType>) {
                return (MintCapability<FCoinType>{}, BurnCapability<FCoinType>{})
            }
        }
    "#]]);
}

#[test]
fn test_emit_event_requires_mutable_reference() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct EventHandle<phantom T: drop + store> has store {
                counter: u64,
                guid: vector<u8>,
            }
            struct Account has key {
                handle: EventHandle<Event>
            }
            struct Event has store, drop {}
            fun emit_event<T: drop + store>(_handler_ref: &mut EventHandle<T>, _msg: T) {}
            fun m<Type: store + drop>() {
                emit_event(borrow_global_mut<Account>(@0x1).handle, Event {});
                         //^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^ err: Incompatible type '0x1::M::EventHandle<0x1::M::Event>', expected '&mut 0x1::M::EventHandle<0x1::M::Event>'
                         //^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^ weak: Replace with resource index expr
            }
        }
    "#]]);
}

#[test]
fn test_invalid_type_for_field_in_struct_literal() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Deal { val: u8 }
            fun main() {
                Deal { val: false };
                          //^^^^^ err: Incompatible type 'bool', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_valid_type_for_field() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Deal { val: u8 }
            fun main() {
                Deal { val: 10 };
                Deal { val: 10u8 };
            }
        }
    "#]]);
}

#[test]
fn test_no_need_for_explicit_type_parameter_if_inferrable_from_context() {
    // language=Move
    check_diagnostics(expect![[r#"
    module 0x1::M {
        struct Option<Element> has copy, drop, store {}
        public fun none<NoneElement>(): Option<NoneElement> {
            Option {}
        }
        struct S { field: Option<address> }
        fun m(): S {
            S { field: none() }
        }
    }
    "#]]);
}

#[test]
fn test_no_need_for_vector_empty_generic() {
    // language=Move
    check_diagnostics(expect![[r#"
    module 0x1::M {
        /// Create an empty vector.
        native public fun empty<Element>(): vector<Element>;
        struct CapState<phantom Feature> has key {
            delegates: vector<address>
        }
        fun m() {
            CapState { delegates: empty() };
        }
    }
    "#]]);
}

#[test]
fn test_type_error_in_struct_literal_field_shorthand() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S { a: u8 }
            fun m() {
                let a = true;
                S { a };
                  //^ err: Incompatible type 'bool', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_do_not_crash_type_checking_invalid_number_of_type_params_or_call_params() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S<R> { val: R }
            fun call(_a: u8) {}
            fun m() {
                let _s = S<u8, u8>{ val: 1 };
                             //^^ err: Invalid instantiation of '0x1::M::S'. Expected 1 type argument(s), but got 2
                call(1, 2, 3);
                      //^ err: This function takes 1 parameters, but 3 parameters were supplied
            }
        }
    "#]]);
}

#[test]
fn test_explicit_unit_return() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun m(): () {}
        }
    "#]]);
}

#[test]
fn test_if_else_with_reference_no_error_if_coercable() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S has drop {}
            fun m() {
                let s = S {};
                let _ = if (true) &s else &mut s;
                let _ = if (true) &mut s else &s;
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_type_address_passed_where_signer_is_expected_in_spec() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun send(account: &signer) {}
                   //^^^^^^^ warn: Unused parameter 'account'

            spec send {
                send(@0x1);
                   //^^^^ err: Incompatible type 'address', expected '&signer'
            }
        }
    "#]]);
}

#[test]
fn test_signer_compatibility_in_spec() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun address_of(_account: &signer): address { @0x1 }
            fun send(account: &signer) {}
            spec send {
                address_of(account);
            }
        }
    "#]]);
}

#[test]
fn test_vector_u8_is_compatible_with_vector_num_in_spec() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S {
                val: vector<u8>
            }
            spec module {
                S { val: b"" };
            }
        }
    "#]]);
}

#[test]
fn test_ref_equality_for_generics_in_spec_call_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Token<TokenT> {}
            fun call<TokenT>(_ref: &Token<TokenT>) {
                let token = Token<TokenT> {};
                spec {
                    call(token);
                }
            }
        }
    "#]]);
}

#[test]
fn test_invalid_argument_to_plus_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun add(a: bool, b: bool) {
                a
              //^ err: Invalid argument to '+': expected integer type, but found 'bool'
                + b
                //^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_invalid_argument_to_plus_expr_for_type_parameter() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun add<T>(a: T, b: T) {
                a
              //^ err: Invalid argument to '+': expected integer type, but found 'T'
                + b;
                //^ err: Invalid argument to '+': expected integer type, but found 'T'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_add_bool_and_u64() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                false + 1u64;
              //^^^^^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_add_u8_and_u64() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1u8 + 1u64;
              //^^^^^^^^^^ err: Incompatible arguments to '+': 'u8' and 'u64'
            }
        }
    "#]]);
}

#[test]
fn test_no_error_if_return_nested_in_if_and_while() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main(): u8 {
                let i = 0;
                while (true) {
                    if (true) return i
                };
                i
            }
        }
    "#]]);
}

#[test]
fn test_no_error_empty_return() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main() {
                if (true) return
                return
            }
        }
    "#]]);
}

#[test]
fn test_no_error_return_tuple_from_if_else() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main(): (u8, u8) {
                if (true) {
                    return (1, 1)
                } else {
                    return (2, 2)
                }
            }
        }
    "#]]);
}

#[test]
fn test_no_error_return_tuple_from_nested_if_else() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main(): (u8, u8) {
                if (true) {
                    if (true) {
                        return (1, 1)
                    } else {
                        return (2, 2)
                    }
                } else {
                    return (3, 3)
                }
            }
        }
    "#]]);
}

#[test]
fn test_error_add_bool_in_assignment_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main() {
                let a = 1u64;
                let b = false;
                a = a + b;
              //^^^^^^^^^ weak: Can be replaced with compound assignment
                      //^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_error_add_bool_in_compound_assignment_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main() {
                let a = 1u64;
                let b = false;
                a += b;
                   //^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_error_invalid_assignment_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun main() {
                let a = 1u64;
                a = false;
                  //^^^^^ err: Incompatible type 'bool', expected 'u64'
            }
        }
    "#]]);
}

#[test]
fn test_tuple_unpacking_with_three_elements_when_two_are_specified() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun tuple(): (u8, u8, u8) { (1, 1, 1) }
            fun main() {
                let (_, _) = tuple();
                  //^^^^^^ err: Invalid unpacking. Expected tuple binding of length 3: (_, _, _)
            }
        }
    "#]]);
}

#[test]
fn test_invalid_tuple_unpacking_with_nested_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S { val: u8 }
            fun tuple(): (u8, u8, u8) { (1, 1, 1) }
            fun main() {
                let (S { val }, _b) = tuple();
                   //^^^^^^^^^ err: Assigned expr of type 'u8' cannot be unpacked with struct pattern
                val;
            }
        }
    "#]]);
}

#[test]
fn test_tuple_unpacking_into_struct_when_tuple_pat_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S { val: u8 }
            fun tuple(): (u8, u8, u8) { (1, 1, 1) }
            fun main() {
                let S { val } = tuple();
                  //^^^^^^^^^ err: Invalid unpacking. Expected tuple binding of length 3: (_, _, _)
                val;
            }
        }
    "#]]);
}

#[test]
fn test_unpacking_struct_into_variable() {
    // language=Move
    check_diagnostics(expect![[r#"
    module 0x1::M {
        struct S { val: u8 }
        fun s(): S { S { val: 10 } }
        fun main() {
            let _s = s();
        }
    }
    "#]]);
}

#[test]
fn test_error_unpacking_struct_into_tuple() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S { val: u8 }
            fun s(): S { S { val: 10 } }
            fun main() {
                let (_a, _b) = s();
                  //^^^^^^^^ err: Invalid unpacking. Expected struct binding of type '0x1::M::S'
            }
        }
    "#]]);
}

#[test]
fn test_error_unpacking_struct_into_tuple_when_single_var_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct S { val: u8 }
            fun s(): u8 { 1 }
            fun main() {
                let (_a, _b) = s();
                  //^^^^^^^^ err: Assigned expr of type 'u8' cannot be unpacked with tuple pattern
            }
        }
    "#]]);
}

#[test]
fn test_error_parameter_type_with_return_type_inferred() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            fun identity<T>(a: T): T { a }
            fun main() {
                let _a: u8 = identity(1u64);
                                    //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_all_integers_are_nums_in_spec_block() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            spec fun spec_pow(y: u64, x: u64): u64 {
                if (x == 0) {
                    1
                } else {
                    y * spec_pow(y, x - 1)
                }
            }

            /// Returns 10^degree.
            public fun pow_10(degree: u8): u64 {
                let res = 1;
                let i = 0;
                while ({
                    spec {
                        invariant res == spec_pow(10, i);
                        invariant 0 <= i && i <= degree;
                    };
                    i < degree
                }) {
                    res *= 10;
                    i += 1;
                };
                res
            }
        }
    "#]]);
}

#[test]
fn test_no_error_unpacking_struct_from_move_from() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Container has key { val: u8 }
            fun main() {
                let Container { val: _ } = move_from(@0x1);
                                         //^^^^^^^^^ err: Could not infer this type. Try adding a type annotation
            }
        }
    "#]]);
}

#[test]
fn test_vector_lit_with_explicit_type_and_type_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                vector<u8>[1u64];
                         //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_vector_lit_with_implicit_type_and_type_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                vector[1u8, 1u64];
                          //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_call_expr_with_incomplete_arguments_and_explicit_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            native fun call<T>(a: T, b: T): T;
            fun main() {
                call<u8>(1u64);
                       //^^^^ err: Incompatible type 'u64', expected 'u8'
                           //^ err: This function takes 2 parameters, but 1 parameters were supplied
            }
        }
    "#]]);
}

#[test]
fn test_call_expr_with_incomplete_arguments_and_implicit_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            native fun call<T>(a: T, b: T, c: T): T;
            fun main() {
                call(1u8, 1u64);
                        //^^^^ err: Incompatible type 'u64', expected 'u8'
                            //^ err: This function takes 3 parameters, but 2 parameters were supplied
            }
        }
    "#]]);
}

#[test]
fn test_option_none_is_compatible_with_any_option() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::option {
            struct Option<Element> {
                vec: vector<Element>
            }
            public fun none<Element>(): Option<Element> {
                Option { vec: vector[] }
            }
        }
        module 0x1::main {
            use 0x1::option;
            struct IterableValue<K> {
                prev: option::Option<K>,
            }
            public fun new() {
                IterableValue { prev: option::none() };
                                            //^^^^ err: Could not infer this type. Try adding a type annotation
            }
        }
    "#]]);
}

#[test]
fn test_nested_boxes() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Box<T> has copy, drop, store { x: T }
            fun box1<T>(x: T): Box<Box<T>> {
                Box { x: Box { x } }
            }
        }
    "#]]);
}

#[test]
fn test_deeply_nested_structure_type_is_unknown_due_to_memory_issues() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Box<T> has copy, drop, store { x: T }
            struct Box3<T> has copy, drop, store { x: Box<Box<T>> }
            struct Box7<T> has copy, drop, store { x: Box3<Box3<T>> }
            struct Box15<T> has copy, drop, store { x: Box7<Box7<T>> }
            struct Box31<T> has copy, drop, store { x: Box15<Box15<T>> }
            struct Box63<T> has copy, drop, store { x: Box31<Box31<T>> }

            fun box3<T>(x: T): Box3<T> {
                Box3 { x: Box { x: Box { x } } }
            }

            fun box7<T>(x: T): Box7<T> {
                Box7 { x: box3(box3(x)) }
            }

            fun box15<T>(x: T): Box15<T> {
                Box15 { x: box7(box7(x)) }
            }

            fun box31<T>(x: T): Box31<T> {
                Box31 { x: box15(box15(x)) }
            }

            fun box63<T>(x: T): Box63<T> {
                Box63 { x: box31(box31(x)) }
            }

            fun main() {
                let a: Box63<u8>;
                a;
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_unpacking_error_for_unresolved_name_in_tuple() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                let (_a, _b) = call();
                             //^^^^ err: Unresolved reference `call`: cannot resolve
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_unpacking_error_for_unresolved_name_in_struct() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: u8 }
            fun main() {
                let S { val: _ } = call();
                                 //^^^^ err: Unresolved reference `call`: cannot resolve
            }
        }
    "#]]);
}

#[test]
fn test_loop_never_returns_and_not_a_type_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main(): u64 {
                let a = 1;
                if (a == 1) return a;
                loop {}
            }
        }
    "#]]);
}

#[test]
fn test_integer_arguments_of_the_same_type_support_ordering() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main(a: u64, b: u64) {
                let c = 1;
                a < b;
                a > b;
                a >= b;
                a <= b;
                a < c;
                b < c;
            }
        }
    "#]]);
}

#[test]
fn test_eq_is_supported_for_same_type_arguments() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: u8 }
            fun main<T>(a: T, b: T) {
                1 == 1;
                1u8 == 1u8;
                1u64 == 1u64;
                false == false;
                S { val: 10 } == S { val: 20 };
                a == b;
            }
        }
    "#]]);
}

#[test]
fn test_not_eq_is_supported_for_same_type_arguments() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: u8 }
            fun main<T>(a: T, b: T) {
                1 != 1;
                1u8 != 1u8;
                1u64 != 1u64;
                false != false;
                S { val: 10 } != S { val: 20 };
                a != b;
            }
        }
    "#]]);
}

#[test]
fn test_cannot_eq_different_types() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: u64 }
            fun main() {
                1 == false;
              //^^^^^^^^^^ err: Incompatible arguments to '==': 'integer' and 'bool'
                S { val: 10 } == false;
              //^^^^^^^^^^^^^^^^^^^^^^ err: Incompatible arguments to '==': '0x1::main::S' and 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_eq_different_integers() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1u8 == 1u64;
              //^^^^^^^^^^^ err: Incompatible arguments to '==': 'u8' and 'u64'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_not_eq_different_integers() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1u8 != 1u64;
              //^^^^^^^^^^^ err: Incompatible arguments to '!=': 'u8' and 'u64'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_ord_different_integers() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1u8 < 1u64;
                    //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_can_ord_booleans() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                true < false;
            }
        }
    "#]]);
}

#[test]
fn test_logic_ops_allow_bools() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                true && true;
                false || false;
            }
        }
    "#]]);
}

#[test]
fn test_logic_ops_invalid_argument_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1u8 && 1u64
              //^^^ err: Incompatible type 'u8', expected 'bool'
                     //^^^^ err: Incompatible type 'u64', expected 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_with_different_generic_parameters() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct G<X, Y> {}
            fun main<X, Y>() {
                if (true) {
                    G<X, Y> {}
                } else {
                    G<Y, X> {}
                  //^^^^^^^^^^ err: Incompatible type '0x1::main::G<Y, X>', expected '0x1::main::G<X, Y>'
                };
            }
        }
    "#]]);
}

#[test]
fn test_type_cannot_contain_itself() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: S }
                          //^ err: Circular reference of type 'S'
        }
    "#]]);
}

#[test]
fn test_type_cannot_contain_itself_in_vector() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: vector<S> }
                                 //^ err: Circular reference of type 'S'
        }
    "#]]);
}

#[test]
fn test_recursive_structs() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x42::M0 {
            struct Foo { f: Foo }
                          //^^^ err: Circular reference of type 'Foo'

            struct Cup<T> { f: T }
            struct Bar { f: Cup<Bar> }
                              //^^^ err: Circular reference of type 'Bar'

            struct X { y: vector<Y> }
            struct Y { x: vector<X> }

        }

        module 0x42::M1 {
            use 0x42::M0;

            struct Foo { f: M0::Cup<Foo> }
                                  //^^^ err: Circular reference of type 'Foo'

            struct A { b: B }
            struct B { c: C }
            struct C { d: vector<D> }
            struct D { x: M0::Cup<M0::Cup<M0::Cup<A>>> }
        }
    "#]]);
}

#[test]
fn test_no_error_for_table_borrow_mut_of_unknown_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::table {
            /// Type of tables
            struct Table<phantom K: copy + drop, V: store> has store {
                inner: V
            }
            public fun borrow_mut<K: copy + drop, V: store>(table: &mut Table<K, V>, _key: K): &mut V {
                &mut table.inner
            }
        }
        module 0x1::pool {
            use 0x1::table;
            struct Pool {
                shares: Unknown
                      //^^^^^^^ err: Unresolved reference `Unknown`: cannot resolve
            }
            fun call(pool: &mut Pool) {
                let value = table::borrow_mut(&mut pool.shares, @0x1);
                let unref = *value;
                1u128 - unref;
            }
        }
    "#]]);
}

#[test]
fn test_no_error_for_nested_struct_literal_and_explicit_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            struct Option<Element> { element: Element }
            struct S { id: Option<u64> }

            fun m() {
                S { id: Option { element: 1u64 } };
            }
        }
    "#]]);
}

#[test]
fn test_if_else_incompatible_expected_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let a = 1u8;
                a = if (true) 1u16 else 1u32;
                            //^^^^ err: Incompatible type 'u16', expected 'u8'
                                      //^^^^ err: Incompatible type 'u32', expected 'u8'
                a = if (true) 1u8 else 1u32;
                                     //^^^^ err: Incompatible type 'u32', expected 'u8'
                a = if (true) 1u16 else 1u8;
                            //^^^^ err: Incompatible type 'u16', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_incompatible_expected_type_both_incompatible_but_compat_to_each_other() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let a = 1;
                a = if (true) false else true;
                  //^^^^^^^^^^^^^^^^^^^^^^^^^ err: Incompatible type 'bool', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_with_expected_type_of_mut_ref_then_incompat() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S { val: u8 }
            fun main() {
                let mut_s = &mut S { val: 2 };
                let s = S { val: 1 };
                mut_s = if (true) &mut s else &s;
                                            //^^ err: Incompatible type '&0x1::m::S', expected '&mut 0x1::m::S'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_with_expected_type_of_mut_ref_else_incompat() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S { val: u8 }
            fun main() {
                let mut_s = &mut S { val: 2 };
                let s = S { val: 1 };
                mut_s = if (true) &s else &mut s;
                                //^^ err: Incompatible type '&0x1::m::S', expected '&mut 0x1::m::S'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_with_expected_type_of_ref_but_incompat_no_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S { val: u8 }
            fun main() {
                let mut_s = &S { val: 2 };
                let s = S { val: 1 };
                mut_s = if (true) &s else &mut s;
            }
        }
    "#]]);
}

#[test]
fn test_if_branch_returns_unit() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let a = 1;
                a = if (true) {} else 1;
                             //^ err: Incompatible type '()', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_else_branch_returns_unit() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let a = 1;
                a = if (true) {} else 1;
                             //^ err: Incompatible type '()', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_uninitialized_integer_with_bin_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let lt;
                if (true) {
                    lt = 1;
                } else {
                    lt = 2;
                };
                lt - 1;
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_unpacking_for_full_struct_pat() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<phantom CoinType> { amount: u8 }
            fun call<CallCoinType>(s: S<CallCoinType>) {
                let S { amount: _my_amount } = s;
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_unpacking_for_shorthand_struct_pat() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<phantom CoinType> { amount: u8 }
            fun call<CallCoinType>(s: S<CallCoinType>) {
                let S { amount } = s;
                amount;
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_unpacking_variable_in_parens() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call() {
                let (a) = 1;
                a;
            }
        }
    "#]]);
}

#[test]
fn test_check_type_of_assigning_value_in_tuple_assignment() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Coin<CoinType> { val: u8 }
            fun coin_zero<CoinType>(): Coin<CoinType> { Coin { val: 0 } }
            fun call<CallCoinType>() {
                let a = 0;
                (a, _) = (coin_zero<CallCoinType>(), 2);
                        //^^^^^^^^^^^^^^^^^^^^^^^^^ err: Incompatible type '0x1::m::Coin<CallCoinType>', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_deref_type_error() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S {}
            fun main() {
                let s = S {};
                let mut_s = &mut s;
                let _b: bool = *mut_s;
                             //^^^^^^ err: Incompatible type '0x1::m::S', expected 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_shift_left_with_u64() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let a = 1u64;
                a << 1;
            }
        }
    "#]]);
}

#[test]
fn test_abort_expr_requires_integer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                abort 1;
                abort 1u8;
                    //^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
                abort 1u64;
                abort false;
                    //^^^^^ err: Incompatible type 'bool', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]]);
}

#[test]
fn test_aborts_if_requires_bool() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call() {}
            spec call {
                aborts_if 1 with 1;
                        //^ err: Incompatible type 'num', expected 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_aborts_if_with_requires_integer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call() {}
            spec call {
                aborts_if true with 1;
                aborts_if true with 1u8;
                aborts_if true with 1u64;
                aborts_if true with false;
                                  //^^^^^ err: Incompatible type 'bool', expected 'num'
            }
        }
    "#]]);
}

#[test]
fn test_aborts_with_requires_integer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call() {}
            spec call {
                aborts_with false;
                          //^^^^^ err: Incompatible type 'bool', expected 'num'
            }
        }
    "#]]);
}

#[test]
fn test_type_check_function_param_in_func_spec() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call(val: bool) {}
            spec call {
                val + 1;
              //^^^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

#[test]
fn test_type_check_function_result_in_func_spec() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call(): bool { true }
            spec call {
                result + 1;
              //^^^^^^ err: Invalid argument to '+': expected integer type, but found 'bool'
            }
        }
    "#]]);
}

// todo
#[test]
fn test_type_check_imply_expr_in_include() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            spec schema Schema {}
            spec module {
                include 1 ==> Schema {};
            }
        }
    "#]]);
}

#[test]
fn test_spec_vector_slice() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            spec module {
                let v = vector[true, false];
                v[0..1];
            }
        }
    "#]]);
}

#[test]
fn test_incompatible_integers_in_gte() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                1u8 >= 1u64;
                     //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_bit_shift_requires_u8() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                1 << 1000u64;
                   //^^^^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_comma_separator_allows_correctly_get_call_expr_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            native fun call(a: u64, b: u8);
            fun main() {
                call(,2u64);
                    //^^^^ err: Incompatible type 'u64', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_if_else_tail_expr_returns_incorrect_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let my_vol_ref = 1u64;
                my_vol_ref =
                    if (true) {
                        1 + 1;
                        1u32
                      //^^^^ err: Incompatible type 'u32', expected 'u64'
                    } else {
                        1 + 1;
                        1u128
                      //^^^^^ err: Incompatible type 'u128', expected 'u64'
                    };
            }
        }
    "#]]);
}

#[test]
fn test_block_returns_incorrect_type_tail_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let my_vol_ref = 1u64;
                my_vol_ref = {
                        1 + 1;
                        1u32
                      //^^^^ err: Incompatible type 'u32', expected 'u64'
                    };
            }
        }
    "#]]);
}

#[test]
fn test_unpack_mut_ref_with_tuple_pattern() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Bin has store {
                reserves_x: u64,
                reserves_y: u64,
                token_data_id: u64,
            }
            fun main(bin: &mut Bin) {
                let (_, _) = bin;
                  //^^^^^^ err: Assigned expr of type '&mut 0x1::m::Bin' cannot be unpacked with tuple pattern
            }
        }
    "#]]);
}

#[test]
fn test_cannot_reference_another_reference() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Pool<X, Y> {}
            fun main<X, Y>(pool: &mut Pool<X, Y>) {
                &pool;
               //^^^^ err: Expected a single non-reference type, but found '&mut 0x1::m::Pool<X, Y>'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_reference_tuple() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun call(): (u8, u8) { (1, 1) }
            fun main() {
                &call();
               //^^^^^^ err: Expected a single non-reference type, but found '(u8, u8)'
            }
        }
    "#]]);
}

#[test]
fn test_cannot_dereference_non_ref() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                *1;
               //^ err: Invalid dereference. Expected '&_' but found 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_range_expr_end_has_different_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let _a = 1..true;
                          //^^^^ err: Incompatible type 'bool', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_return_type_inference_for_generic_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            native fun borrow<Value>(): Value;
            fun main() {
                borrow() + 3;
            }
        }
    "#]]);
}

#[test]
fn test_return_type_inference_for_deref_borrow_expr_lhs() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            native fun borrow<Value>(): &Value;
            fun main() {
                *borrow() + 3;
            }
        }
    "#]]);
}

#[test]
fn test_return_type_inference_for_deref_borrow_expr_rhs() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            native fun borrow<Value>(): &Value;
            fun main() {
                3 + *borrow();
            }
        }
    "#]]);
}

#[test]
fn test_unpacking_of_struct_ref_allowed() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Field { id: u8 }
            fun main() {
                let Field { id: _ } = &Field { id: 1 };
            }
        }
    "#]]);
}

#[test]
fn test_incorrect_types_for_vector_borrow_methods() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::vector {
            native public fun borrow<Element>(v: &vector<Element>, i: u64): &Element;
            native public fun borrow_mut<Element>(v: &mut vector<Element>, i: u64): &mut Element;
        }
        module 0x1::m {
            use 0x1::vector;

            fun main() {
                let v = vector[1, 2];

                vector::borrow(0, &v);
                             //^ err: Incompatible type 'integer', expected '&vector<Element>'
                                //^^ err: Incompatible type '&vector<integer>', expected 'u64'
                vector::borrow(v, 0);
                             //^ err: Incompatible type 'vector<integer>', expected '&vector<Element>'

                vector::borrow_mut(0, &mut v);
                                 //^ err: Incompatible type 'integer', expected '&mut vector<Element>'
                                    //^^^^^^ err: Incompatible type '&mut vector<integer>', expected 'u64'
                vector::borrow_mut(v, 0);
                                 //^ err: Incompatible type 'vector<integer>', expected '&mut vector<Element>'
                vector::borrow_mut(&v, 0);
                                 //^^ err: Incompatible type '&vector<integer>', expected '&mut vector<integer>'
            }
        }
    "#]]);
}

#[test]
fn test_circular_types_for_enum() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            enum S { One { s: S }, Two }
                            //^ err: Circular reference of type 'S'
        }
    "#]]);
}

#[test]
fn test_return_enum_value_from_function() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            enum Iterator { Empty, Some { item: u8 } }
            fun create_iterator(): Iterator {
                Iterator::Empty
            }
        }
    "#]]);
}

#[test]
fn test_return_enum_value_with_fields_from_function() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            enum Iterator { Empty, Some { item: u8 } }
            fun create_iterator(): Iterator {
                Iterator::Some { item: 1 }
            }
        }
    "#]]);
}

#[test]
fn test_return_generic_empty_enum_value_from_function() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            enum Iterator<IterT> { Empty, Some { item: IterT } }
            fun create_iterator<FunT>(): Iterator<FunT> {
                Iterator::Empty
            }
        }
    "#]]);
}

#[test]
fn test_no_invalid_dereference_inside_lambda() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::vector {
            public native fun enumerate_ref<Element>(self: vector<Element>, f: |&Element|);
        }
        module 0x1::m {
            fun main() {
                vector[@0x1].enumerate_ref(|to| { *to; });
            }
        }
    "#]]);
}

#[test]
fn test_invalid_dereference_inside_lambda() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::vector {
            public native fun enumerate_ref<Element>(self: vector<Element>, _f: |Element|);
        }
        module 0x1::m {
            fun main() {
                vector[@0x1].enumerate_ref(|to| { *to; });
                                                 //^^ err: Invalid dereference. Expected '&_' but found 'address'
            }
        }
    "#]]);
}

#[test]
fn test_struct_lit_with_expected_type_of_different_generic_argument() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<R> { val: R }
            fun main() {
                let _s: S<u8> = S<u16> { val: 1 };
                              //^^^^^^^^^^^^^^^^^ err: Incompatible type '0x1::m::S<u16>', expected '0x1::m::S<u8>'
            }
        }
    "#]]);
}

#[test]
fn test_tuple_struct_lit_with_expected_type_of_different_generic_argument() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<R>(R);
            fun main() {
                let _s: S<u8> = S<u16>(1);
                              //^^^^^^^^^ err: Incompatible type '0x1::m::S<u16>', expected '0x1::m::S<u8>'
            }
        }
    "#]]);
}

#[test]
fn test_struct_lit_field_with_expected_type_of_different_generic_argument() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<R> { val: R }
            fun main() {
                let _s: S<u8> = S { val: 1u16 };
                                       //^^^^ err: Incompatible type 'u16', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_tuple_struct_lit_field_with_expected_type_of_different_generic_argument() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S<R>(R);
            fun main() {
                let _s: S<u8> = S(1u16);
                                //^^^^ err: Incompatible type 'u16', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_return_only_call_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            native fun call(): u16;
            fun main() {
                let _a: u8 = call();
                           //^^^^^^ err: Incompatible type 'u16', expected 'u8'
            }
        }
    "#]]);
}

#[test]
fn test_num_and_u64_in_spec_block_from_outer_scope() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                let validator_index = 1;
                spec {
                    validator_index + 1;
                }
            }
        }
    "#]]);
}

#[test]
fn test_num_and_integer_returning_spec_fun_for_spec_block() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Aggregator<IntElement> has store, drop {
                value: IntElement,
                max_value: IntElement,
            }
            spec native fun spec_get_max_value<IntElement>(aggregator: Aggregator<IntElement>): IntElement;
            fun main() {
                let agg = Aggregator { value: 1, max_value: 1 };
                spec {
                    assert spec_get_max_value(agg) == 10;
                }
            }
        }
    "#]]);
}

#[test]
fn test_compare_two_generics_from_spec_fun() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Aggregator<IntElement> has store, drop {
                value: IntElement,
                max_value: IntElement,
            }
            spec native fun spec_get_max_value<IntElement>(aggregator: Aggregator<IntElement>): IntElement;
            fun main() {
                let agg = Aggregator { value: 1, max_value: 1 };
                spec {
                    assert spec_get_max_value(agg) < spec_get_max_value(agg);
                }
            }
        }
    "#]]);
}

#[test]
fn test_for_each_vector_fold() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::vector {
            /// Apply the function to each element in the vector, consuming it.
            public inline fun for_each<ForEachElement>(self: vector<ForEachElement>, _f: |ForEachElement|) { self; }
            public inline fun fold<Accumulator, Element>(
                self: vector<Element>,
                init: Accumulator,
                f: |Accumulator,Element|Accumulator
            ): Accumulator {
                let accu = init;
                self.for_each(|elem| accu = f(accu, elem));
                accu
            }
        }
    "#]]);
}

#[test]
fn test_no_error_for_cast_expr_precedence() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                (1u8 + 2u8 as u16);
            }
        }
    "#]]);
}

#[test]
fn test_modifies_expects_struct() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Features has key { val: u8 }
            spec module {
                modifies global<Features>(@0x1);
                       //^^^^^^^^^^^^^^^^^^^^^^ weak: Replace with resource index expr
            }
        }
    "#]]);
}

#[test]
fn test_infer_variables_before_integer_type_checking() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct Option<T> { val: T }
            public native fun borrow<Element>(self: &Option<Element>): &Element;
            public native fun get_option<T>(x: T): Option<T>;
            fun main() {
                1 < *get_option(1u64).borrow();
            }
        }
    "#]]);
}

#[test]
fn test_enum_variant_with_function_value_as_field() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            enum State {
                WaitForNumber(|u64|u64)
            }
            fun call(x: u64): u64 { x }
            fun main() {
                State::WaitForNumber(call);
                State::WaitForNumber(|y| call(y));
            }
        }
    "#]]);
}

#[test]
fn test_invalid_dereference_for_lambda_with_unknown_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                |_k, v| *v += 1;
            }
        }
    "#]]);
}

#[test]
fn test_instantiate_tuple_struct_with_lambda() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Predicate<T>(|&u64|bool) has copy;
            fun main() {
                let _predicate = Predicate(|x| *x > 0);
            }
        }
    "#]])
}

#[test]
fn test_instantiate_tuple_struct_with_lambda_with_generic() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Predicate<T>(|&T|bool) has copy;
            fun call(_pred: Predicate<u64>) {
            }
            fun main() {
                let predicate = Predicate(|x| *x > 0);
                call(predicate);
            }
        }
    "#]])
}

#[test]
fn test_instantiate_tuple_struct_with_lambda_with_explicit_generic() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Predicate<T>(|&T|bool) has copy;
            fun main() {
                let _predicate = Predicate::<u64>(|x| *x > 0);
            }
        }
    "#]])
}

#[test]
fn test_cannot_provide_predicate_where_lambda_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Predicate<T>(|&T|bool) has copy;
            fun call1(_predicate: |&u64|bool) {}
            fun main() {
                let predicate = Predicate(|x| *x > 0);
                call1(predicate);
                    //^^^^^^^^^ err: Incompatible type '0x1::main::Predicate<integer>', expected '|&u64| -> bool'
            }
        }
    "#]])
}

#[test]
fn test_can_provide_lambda_where_predicate_is_expected() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Predicate<T>(|&T|bool) has copy;
            fun call2(_predicate: Predicate<u64>) {}
            fun main() {
                call2(|x| *x > 0);
            }
        }
    "#]])
}

#[test]
fn test_equality_should_allow_for_different_ref_mutability() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S { val: u8 }
            fun main() {
                &mut 1 == &1;
            }
        }
    "#]])
}

#[test]
fn test_empty_tuple_is_unit_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun call() {}
            fun main() {
                let () = call();
                let () = ();
            }
        }
    "#]])
}

#[test]
fn test_empty_tuple_on_the_left_is_unit_expr_but_trying_to_put_value_there() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun call(): u8 { 1 }
            fun main() {
                let () = call();
            }
        }
    "#]])
}

#[test]
fn test_unit_expr_is_not_allowed_as_local_variable_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun call() {}
            fun main() {
                let _x = ();
                let _x = call();
            }
        }
    "#]])
}

#[test]
fn test_single_element_tuple_can_be_stored_in_a_single_variable() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun call(_a: u8) {}
            fun main() {
                let x = (1,);
                x + 1;
            }
        }
    "#]])
}

#[test]
fn test_single_element_tuple_can_be_used_in_call_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun call(_a: u8) {}
            fun main() {
                call((1,));
            }
        }
    "#]])
}

#[test]
fn test_equality_with_lambda_type_which_gets_its_value_later() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                1 < (|| { 2u8 })();
            }
        }
    "#]])
}

#[test]
fn test_equality_with_lambda_type_which_gets_its_value_later_with_variable() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                let v = || { 2u8 };
                1 < v();
            }
        }
    "#]])
}

#[test]
fn test_annotated_expr_returns_its_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct Vector<T> {}

            public fun dummy_vector(): Vector<u8> {
                (Vector{}: Vector<u8>)
            }
        }
    "#]])
}

#[test]
fn test_annotated_expr_with_invalid_inner_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            public fun main() {
                (1: bool);
               //^ err: Incompatible type 'integer', expected 'bool'
            }
        }
    "#]])
}

#[test]
fn test_type_check_arguments_for_tuple_struct() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            struct S(u8, bool, vector<u8>);
            public fun main() {
                S(1, true, b"123");
                S(false, 1, false);
                //^^^^^ err: Incompatible type 'bool', expected 'u8'
                       //^ err: Incompatible type 'integer', expected 'bool'
                          //^^^^^ err: Incompatible type 'bool', expected 'vector<u8>'
            }
        }
    "#]])
}

#[test]
fn test_no_error_if_expr_return_value_is_not_consumed() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            native fun borrow<Element>(v: &vector<Element>, i: u8): &Element;
            public fun main() {
                *borrow(&vector[1, 2], 0);
            }
        }
    "#]])
}

#[test]
fn test_type_error_for_const_initializer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            const MY_CONST: u8 = true;
                               //^^^^ err: Incompatible type 'bool', expected 'u8'
            const MY_CONST_2: u8 = 1u16;
                                 //^^^^ err: Incompatible type 'u16', expected 'u8'
            const MY_CONST_3: u8 = 1;
            const MY_CONST_4: u8 = 1 + 1;
        }
    "#]])
}

#[test]
fn test_type_error_for_abort_code() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            #[test, expected_failure(abort_code = 1)]
            fun test_main() {

            }
            #[test, expected_failure(abort_code = true)]
                                                //^^^^ err: Incompatible type 'bool', expected 'u64'
            fun test_main3() {

            }
            #[test]
            #[expected_failure(abort_code = true)]
                                          //^^^^ err: Incompatible type 'bool', expected 'u64'
            fun test_main2() {

            }
        }
    "#]])
}

#[test]
fn test_type_error_assert_u64() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                assert!(true, 1u8);
                            //^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]])
}

#[test]
fn test_type_error_abort_u64() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {
                abort 1u8;
                    //^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]])
}

#[test]
fn test_object_wrapped_item_with_match_arms_with_enum_struct() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            struct Object<T> {
                val: T
            }
            enum Relationship<phantom RelSource> {
                V1 {
                    source: Object<RelSource>
                }
            }
            // This function triggers the false positive error
            public fun get_source<FunSource: key>(relationship: Relationship<FunSource>): Object<FunSource> {
                match(&relationship) {
                    Relationship::V1 { source } => *source
                }
            }
        }
    "#]])
}

#[test]
fn test_object_wrapped_item_with_match_arms_with_enum_tuple_struct() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            struct Object<T> {
                val: T
            }
            enum Relationship<phantom RelSource> {
                V1(Object<RelSource>)
            }
            // This function triggers the false positive error
            public fun get_source<FunSource: key>(relationship: Relationship<FunSource>): Object<FunSource> {
                match(&relationship) {
                    Relationship::V1(source) => *source
                }
            }
        }
    "#]])
}

#[test]
fn test_signed_integer() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            fun call(_a: i8, _b: i8, _c: i8) {}
            fun main() {
                let _a: i8 = 1;
                let _a: i8 = 1i8;
                let _a: i8 = -1i8;
                let _a: i8 = 1i64;
                           //^^^^ err: Incompatible type 'i64', expected 'i8'
                let _a: i8 = -1i64;
                           //^^^^^ err: Incompatible type 'i64', expected 'i8'
                1i8 + 1i8;
                1i8 + 1i64;
              //^^^^^^^^^^ err: Incompatible arguments to '+': 'i8' and 'i64'
                call(-1, 1i8, 1i64);
                            //^^^^ err: Incompatible type 'i64', expected 'i8'
            }
        }
    "#]])
}

#[test]
fn test_minus_expr() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            fun call(_a: i8, _b: i8, _c: i8) {}
            fun main() {
                let _a = -1;
                let _a: i8 = -1;
                -true;
               //^^^^ err: Incompatible type 'bool', expected 'integer'
            }
        }
    "#]])
}

#[test]
fn test_allow_comparing_struct_types() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            struct S { val: u8 }
            fun main() {
                let s1 = S { val: 1 };
                let s2 = S { val: 2 };
                s1 < s2;
            }
        }
    "#]])
}

#[test]
fn test_ref_signer_cannot_be_used_as_type_argument() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::mod {
            struct S<T> { val: T }
            fun main(acc: &signer) {
                S { val: acc };
                       //^^^ err: Type `&signer` is not allowed as a type argument
            }
        }
    "#]])
}

// language=Move
#[test]
fn test_abort_with_integer_type() {
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                abort 1u64;
                abort 1u8;
                    //^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
                abort 1u16;
                    //^^^^ err: Incompatible type 'u16', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]])
}

// language=Move
#[test]
fn test_abort_with_vector_u8() {
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                abort b"1234";
                abort vector[1, 2, 3, 4];
                abort vector[1u8, 2u8];
                abort vector[1u128, 2u128];
                    //^^^^^^^^^^^^^^^^^^^^ err: Incompatible type 'vector<u128>', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]])
}

// language=Move
#[test]
fn test_abort_with_block_returning_u64() {
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {
                abort { 1u64 };
                abort { b"1234" };
                abort { vector[1u8] };
                abort { vector[1u64] };
                    //^^^^^^^^^^^^^^^^ err: Incompatible type 'vector<u64>', expected any of ['u64', 'vector<u8>']
                abort { 1u8 };
                    //^^^^^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
                abort { vector[true, false] };
                    //^^^^^^^^^^^^^^^^^^^^^^^ err: Incompatible type 'vector<bool>', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]])
}

#[test]
fn test_assert_with_invalid_error_code_param() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            public fun main() {
                assert!(1u8, b"1234 {}");
                      //^^^ err: Incompatible type 'u8', expected 'bool'
                assert!(true, 11);
                assert!(true, 11u64);
                assert!(true, 11u8);
                            //^^^^ err: Incompatible type 'u8', expected any of ['u64', 'vector<u8>']
                assert!(true, true);
                            //^^^^ err: Incompatible type 'bool', expected any of ['u64', 'vector<u8>']
                assert!(true, vector[true]);
                            //^^^^^^^^^^^^ err: Incompatible type 'vector<bool>', expected any of ['u64', 'vector<u8>']
            }
        }
    "#]]);
}

#[test]
fn test_assert_eq_ne_with_different_parameter_types() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            public fun main() {
                assert_eq!(1, true);
                            //^^^^ err: Incompatible type 'bool', expected 'integer'
                assert_eq!(1u8, 1u64);
                              //^^^^ err: Incompatible type 'u64', expected 'u8'
                assert_eq!(1, 1, true);
                               //^^^^ err: Incompatible type 'bool', expected 'vector<u8>'
            }
        }
    "#]]);
}

#[test]
fn test_check_param_for_global_variable_explicit_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            spec module {
                global addr: address = @0x1;
                global addr: address = 1;
                                     //^ err: Incompatible type 'num', expected 'address'
            }
        }
    "#]]);
}

#[test]
fn test_check_update_variable() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            spec schema MySchema {
                local ensures: address;
                update ensures = @0x1;
                update ensures = 1;
                               //^ err: Incompatible type 'num', expected 'address'
            }
        }
    "#]]);
}

#[test]
fn test_check_apply_lemma_arguments() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::main {
            fun main() {}
            spec lemma add_mono(_a: u64) {}
            spec main {} proof {
                forall _a: u64 apply add_mono(true);
                                            //^^^^ err: Incompatible type 'bool', expected 'num'
                forall _a: u64 apply add_mono(1);
            }
        }
    "#]]);
}

#[test]
fn test_check_weight_expr_type() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main() {}
            spec main {
                forall y: u64 [weight = 10]: y == y;
                forall y: u64 [weight = 10u128]: y == y;
                forall y: u64 [weight = -10]: y == y;
                forall y: u64 [weight = false]: y == y;
                                      //^^^^^ err: Incompatible type 'bool', expected 'integer'
            }
        }
    "#]]);
}

#[test]
fn test_match_with_integers_and_ranges() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            fun main1(): bool {
                let x = 0u8;
                match (x) {
                    0 => true,
                    1 => false,
                    2..3 => false,
                    2u16..3u16 => false,
                  //^^^^ err: Incompatible type 'u16', expected 'u8'
                        //^^^^ err: Incompatible type 'u16', expected 'u8'
                    @0x1 => false,
                  //^^^^ err: Incompatible type 'address', expected 'u8'
                    true => false,
                  //^^^^ err: Incompatible type 'bool', expected 'u8'
                }
            }
        }
    "#]]);
}

#[test]
fn test_check_arguments_for_behavior_predicate() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::M {
            native fun params_2(val: u8, val2: u64);

            fun main() {
            }
            spec main {
                aborts_of<params_2>(1, 2);
                aborts_of<params_2>(true, true);
                                  //^^^^ err: Incompatible type 'bool', expected 'num'
                                        //^^^^ err: Incompatible type 'bool', expected 'num'
                aborts_of<params_2>(1u16, @0x1);
                                        //^^^^ err: Incompatible type 'address', expected 'num'

            }
        }
    "#]]);
}
