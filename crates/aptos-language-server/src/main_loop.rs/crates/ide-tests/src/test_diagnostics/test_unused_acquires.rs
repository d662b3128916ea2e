// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

use crate::ide_test_utils::diagnostics::{check_diagnostics, check_diagnostics_and_fix};
use expect_test::expect;

#[test]
fn test_unused_acquires_on_regular_fun() {
    // language=Move
    check_diagnostics_and_fix(
        expect![[r#"
            module 0x1::m {
                struct S has key { val: u8 }
                fun main() acquires S {
                         //^^^^^^^^^^ weak: Acquires declarations are no longer needed and should be removed
                    move_from<S>(@0x1);
                }
            }
        "#]],
        expect![[r#"
            module 0x1::m {
                struct S has key { val: u8 }
                fun main() {
                    move_from<S>(@0x1);
                }
            }
    "#]],
    );
}

#[test]
fn test_unused_acquires_on_inline_fun() {
    // language=Move
    check_diagnostics_and_fix(
        expect![[r#"
            module 0x1::m {
                struct S has key { val: u8 }
                inline fun main() acquires S {
                                //^^^^^^^^^^ weak: Acquires declarations are no longer needed and should be removed
                    move_from<S>(@0x1);
                }
            }
        "#]],
        expect![[r#"
            module 0x1::m {
                struct S has key { val: u8 }
                inline fun main() {
                    move_from<S>(@0x1);
                }
            }
    "#]],
    );
}

#[test]
fn test_no_diagnostic_when_no_acquires() {
    // language=Move
    check_diagnostics(expect![[r#"
        module 0x1::m {
            struct S has key { val: u8 }
            fun main() {
                move_from<S>(@0x1);
            }
        }
    "#]]);
}
