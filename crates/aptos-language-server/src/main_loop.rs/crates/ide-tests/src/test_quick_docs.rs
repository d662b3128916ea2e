// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::init_tracing_for_test;
use expect_test::expect;
use syntax::files::FilePosition;
use test_utils::{fixtures, get_first_marked_position};

pub(crate) fn check_hover(source: &str, expect: expect_test::Expect) {
    init_tracing_for_test();

    let ref_offset = get_first_marked_position(&source, "//^").item_offset;

    let (analysis, file_id) = fixtures::from_single_file(source.to_string());
    let position = FilePosition { file_id, offset: ref_offset };

    let hover_result = analysis
        .hover(position)
        .unwrap()
        .map(|range_info| range_info.info);
    let hover_result = hover_result.expect("no docs is available");

    let mut doc_string = hover_result.doc_string.trim().to_string();
    doc_string.push('\n');
    expect.assert_eq(&doc_string);
}

#[test]
fn test_hover_for_struct() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// struct docs
    #[object]
    struct S has key { val: u8 }
    fun main() {
        S { val: u8 };
      //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m

            #[object]
            struct S has key { ... }
            ```
            ---
            struct docs
        "#]],
    )
}

#[test]
fn test_hover_for_enum() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// enum docs
    #[object]
    enum S has key { One { val: u8 }, Two(u8, u8) }
    fun main() {
        S::One;
      //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m

            #[object]
            enum S has key {
                One { ... },
                Two(...)
            }
            ```
            ---
            enum docs
        "#]],
    )
}

#[test]
fn test_hover_for_function() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    struct S<T> { val: T }
    /// function docs
    #[view]
    public fun main(a: u8, b: S<u8>): S<u8> acquires S {
        main(1, S { val: 1 });
        //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m

            #[view]
            public fun main(a: u8, b: S<u8>): S<u8>
            acquires S
            ```
            ---
            function docs
        "#]],
    )
}

#[test]
fn test_hover_for_struct_field() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// struct docs
    struct S has key {
        /// my field
        val: u8
    }
    fun main() {
        S { val: u8 };
           //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m::S

            field val: u8
            ```
            ---
            my field
        "#]],
    )
}

#[test]
fn test_hover_for_enum_variant() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// struct docs
    enum S has key {
        /// my enum variant
        One,
        Two,
    }
    fun main() {
        S::One;
           //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m::S

            variant One
            ```
            ---
            my enum variant
        "#]],
    )
}

#[test]
fn test_hover_for_enum_variant_with_named_fields() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// struct docs
    enum S has key {
        /// my enum variant
        One { val: u8 },
        Two,
    }
    fun main() {
        S::One;
           //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m::S

            variant One { ... }
            ```
            ---
            my enum variant
        "#]],
    )
}

#[test]
fn test_hover_for_enum_variant_with_tuple_fields() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    /// struct docs
    enum S has key {
        /// my enum variant
        One(u8),
        Two,
    }
    fun main() {
        S::One;
           //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m::S

            variant One(u8)
            ```
            ---
            my enum variant
        "#]],
    )
}

#[test]
fn test_hover_for_variable_with_type() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    fun main() {
        let my_var: u8 = 1;
        my_var;
        //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move

            variable my_var: u8
            ```
            ---
        "#]],
    )
}

#[test]
fn test_hover_for_const_with_type() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    const MY_CONST: u8 = 1;
    fun main() {
        MY_CONST;
        //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m

            const MY_CONST: u8
            ```
            ---
        "#]],
    )
}

#[test]
fn test_hover_for_function_parameter_with_type() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    fun main(my_param: u8) {
        my_param;
        //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move

            parameter my_param: u8
            ```
            ---
        "#]],
    )
}

#[test]
fn test_hover_for_module_with_inner_comment() {
    check_hover(
        // language=Move
        r#"
/// module docs
module 0x1::m {
          //^
    /// inner string
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1

            module m
            ```
            ---
            module docs
        "#]],
    )
}

#[test]
fn test_hover_for_spec_fun_in_module_spec() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
}
spec 0x1::m {
    /// my spec_call function
    spec fun spec_call(): u8 { 1 }
            //^
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m

            spec fun spec_call(): u8
            ```
            ---
            my spec_call function
        "#]],
    )
}

#[test]
fn test_hover_for_builtin_spec_fun_in_module_spec() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
}
spec 0x1::m {
    spec fun main(): u8 {
        spec {
            len(vector[]);
            //^
        }
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x0::builtins

            spec fun len(t: vector<T>): num
            ```
            ---
        "#]],
    )
}

#[test]
fn test_docs_for_enum_variant_from_match_arm() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    enum Num {
        /// Num::One
        One
    }

    fun main(s: Num) {
        match (s) {
            One => true
            //^
        };
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```move
            0x1::m::Num

            variant One
            ```
            ---
        "#]],
    )
}

#[test]
fn test_docs_for_spec_keyword() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    fun main(s: Num) {
        spec {
            assert 1 == 1;
           //^
        }
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            An `assert` statement inside a spec block indicates a condition that must hold when control reaches that block.
            If the condition does not hold, an error is reported by the Move Prover.
        "#]],
    )
}

#[test]
fn test_docs_for_fun_item_spec_result() {
    check_hover(
        // language=Move
        r#"
module 0x1::m {
    fun main(): u8 {
    }
    spec main {
        result;
       //^
    }
}
    "#,
        // language=Markdown
        expect![[r#"
            ```
            result: num
            ```
            ---
            `result` is a special spec variable which holds the return value of a function.
        "#]],
    )
}
