// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::ide_test_utils::check_signature_info;
use expect_test::expect;

#[test]
fn test_fun_no_args() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo() {}
            fun main() { foo(/*caret*/); }
        }
            "#;

    check_signature_info(source, expect!["<no arguments>"]);
}

#[test]
fn test_fun_one_arg() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(arg: u8) {}
            fun main() { foo(/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>arg: u8
        //^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_one_arg_end() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(arg: u8) {}
            fun main() { foo(42/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>arg: u8
        //^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_many_args() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(arg: u8, s: &signer, v: vector<u8>) {}
            fun main() { foo(/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>arg: u8, s: &signer, v: vector<u8>
        //^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_many_args_vector_u8() {
    // language=Move
    let source = r#"
        module 0x1::M {
            fun call(a: u8, b: vector<u8>, c: vector<u8>) {}
            fun m() {
                call(1, b"11", b"22"/*caret*/);
            }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>a: u8, b: vector<u8>, c: vector<u8>
                              //^^^^^^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_poorly_formatted_args() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(arg:          u8,     s:    &signer,    v   : vector<u8>) {}
            fun main() { foo(/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>arg: u8, s: &signer, v: vector<u8>
        //^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_args_index_0() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(val1: u8, val2: u8) {}
            fun main() { foo(42/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>val1: u8, val2: u8
        //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_args_index_1() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(val1: u8, val2: u8) {}
            fun main() { foo(42, 10/*caret*/); }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>val1: u8, val2: u8
                  //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_args_multiline_call() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun foo(val1: u8, val2: u8) {}
            fun main() {
                foo(
                    42/*caret*/,
                    10
                );
            }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>val1: u8, val2: u8
        //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_args_builtin_function() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun main() {
                borrow_global(/*caret*/);
            }
        }
            "#;

    check_signature_info(
        source,
        expect![[r#"
        >>addr: address
        //^^^^^^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_args_aliased_function() {
    // language=Move
    let source = r#"
        module 0x1::string {
            public fun call(addr: address) {}
        }
        module 0x1::m {
            use 0x1::string::call as mycall;
            fun main() {
                mycall(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>addr: address
        //^^^^^^^^^^^^^
    "#]],
    );
}

#[test]
fn test_incomplete_args_index_1() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun call(val1: u8, val2: u8) {}
            fun main() { call(42, /*caret*/); }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>val1: u8, val2: u8
                  //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_incomplete_args_index_2() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun call(val1: u8, val2: u8, val3: u8) {}
            fun main() { call(42, 10, /*caret*/); }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>val1: u8, val2: u8, val3: u8
                            //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_method_call() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S { val: u8 }
            fun get_val(self: &S, modifier: bool): u8 { self.val }
            fun main(s: S) {
                s.get_val(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>modifier: bool
        //^^^^^^^^^^^^^^
    "#]],
    );
}

#[test]
fn test_method_call_called_as_function() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S { val: u8 }
            fun get_val(self: &S, modifier: bool): u8 { self.val }
            fun main(s: S) {
                get_val(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>self: &S, modifier: bool
        //^^^^^^^^
    "#]],
    );
}

#[test]
fn test_fun_with_uninferred_generic_parameter() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S<R> {}
            fun push_back<R>(self: &mut S<R>, e: R);
            fun main(s: S<u8>) {
                push_back(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>self: &mut S<R>, e: R
        //^^^^^^^^^^^^^^^
    "#]],
    );
}

#[test]
fn test_method_call_with_generic_parameter() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S<R> {}
            fun push_back<R>(self: &mut S<R>, e: R);
            fun main(s: S<u8>) {
                s.push_back(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>e: u8
        //^^^^^
    "#]],
    );
}

#[test]
fn test_assert_macro() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun main() {
                assert!(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>_: bool, err: u64
        //^^^^^^^
    "#]],
    );
}

#[test]
fn test_named_tuple_struct() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S(u8, u16);
            fun main() {
                S(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>u8, u16
        //^^
    "#]],
    );
}

#[test]
fn test_named_tuple_struct_with_generic_param() {
    // language=Move
    let source = r#"
        module 0x1::m {
            struct S<T>(T, T);
            fun main() {
                S<u8>(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>u8, u8
        //^^
    "#]],
    );
}

#[test]
fn test_tuple_enum_variant() {
    // language=Move
    let source = r#"
        module 0x1::m {
            enum S { One(u8, u8) }
            fun main() {
                S::One(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>u8, u8
        //^^
    "#]],
    );
}

#[test]
fn test_tuple_enum_variant_with_generics() {
    // language=Move
    let source = r#"
        module 0x1::m {
            enum S<T> { One(T, T) }
            fun main() {
                S<u8>::One(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>u8, u8
        //^^
    "#]],
    );
}

#[test]
fn test_lambda_expr() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun main() {
                let lambda = |a: u8, b: u8| a + b;
                lambda(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
            >>a: u8, b: u8
            //^^^^^
        "#]],
    );
}

#[test]
fn test_lambda_type() {
    // language=Move
    let source = r#"
        module 0x1::m {
            fun main(lambda: |u8, u8| u8) {
                lambda(/*caret*/);
            }
        }
        "#;

    check_signature_info(
        source,
        expect![[r#"
        >>u8, u8
        //^^
    "#]],
    );
}

#[test]
fn test_behavior_predicates() {
    check_signature_info(
        // language=Move
        r#"
        module 0x1::M {
            native fun params_2(val: u8, val2: u64);

            fun main() {
            }
            spec main {
                aborts_of<params_2>(/*caret*/);

            }
        }
    "#,
        expect![[r#"
        >>val: num, val2: num
        //^^^^^^^^
    "#]],
    );
}
