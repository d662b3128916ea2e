// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::resolve::{check_resolve, check_resolve_tmpfs};
use test_utils::fixtures::test_state::named;

#[test]
fn test_resolve_base_for_index_expr() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    struct S { val: u8 }
         //X
    fun main() acquires S {
        S[@0x1].val;
      //^
    }
}
"#,
    )
}

#[test]
fn test_resolve_dot_field_for_index_expr() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    struct S { val: u8 }
              //X
    fun main() acquires S {
        S[@0x1].val;
               //^
    }
}
"#,
    )
}

#[test]
fn test_resolve_dot_field_for_dot_field_for_index_expr() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    struct S { val: u8 }
              //X
    struct T { val: S }
    fun main() acquires T {
        T[@0x1].val.val;
                   //^
    }
}
"#,
    )
}

#[test]
fn test_resolve_lambda_expr_with_lambda_and_wildcard_pattern_with_invalid_binary_expr() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    fun main() {
        let a = 1;
          //X
        let s = self.all(|_| {
            a; 1 + });
          //^
    }
}
"#,
    )
}

#[test]
fn test_resolve_field_of_index_expr() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    struct Features { features: u8 }
                        //X
    fun main() {
        if (true) {
        } else if (true) {
            Features[@std].features;
                           //^
        }
    }
}
    "#,
    );
}

#[test]
fn test_cannot_resolve_borrow_global_mut() {
    // language=Move
    check_resolve(
        r#"
module 0x1::m {
    fun main() {
        borrow_global_mut<u8>(@0x1);
         //^ unresolved
    }
}
    "#,
    );
}

#[test]
fn test_resolve_module_from_module_spec_with_named_address() {
    // language=Move
    check_resolve(
        r#"
module std::m {
          //X
}
spec std::m {
        //^
}
    "#,
    );
}

// language=Move
#[test]
fn test_integer_inference_with_spec_blocks_inside_block() {
    check_resolve(
        r#"
module 0x1::main {
    spec fun get_num(): num { 1 }
    fun main() {
        let myint = 1;
            //X
        myint + 1u8;
        spec {
            myint
            //^ num
        };
    }
}
"#,
    )
}

// language=Move
#[test]
fn test_resolve_spec_fun_from_spec_module_to_fun() {
    check_resolve(
        r#"
module 0x1::main {
    fun main() {}
       //X
}
spec 0x1::main {
    spec main {
        //^

    }
}
"#,
    )
}

// language=Move
#[test]
fn test_prioritize_variable_in_variable_context_in_case_of_multiple_resolution() {
    check_resolve(
        r#"
module 0x1::main {
    fun bytes() {}
    fun main(bytes: vector<u8>) {
            //X
        bytes;
         //^
    }
}
"#,
    )
}

// language=Move
#[test]
fn test_resolve_lambda_return_value_from_struct_field() {
    check_resolve(
        r#"
module 0x1::main {
    struct S<T, U> { settle_trade_f: |T, U| T }
    struct TT { val: u8 }
               //X
    struct UU { val: u16 }
    fun main(self: S<TT, UU>) {
        let tt = TT { val: 1 };
        let uu = UU { val: 1 };
        (self.settle_trade_f)(tt, uu).val;
                                     //^
    }
}
"#,
    )
}

#[test]
fn test_module_item_cross_file() {
    check_resolve_tmpfs(vec![named(
        "Main",
        // language=Move
        r#"
//- /m.move
module std::m {
    public fun call() {}
              //X
}
//- /main.move
module std::main {
    use std::m::call;

public fun main() {
        call();
       //^
    }
}
"#,
    )])
}

#[test]
fn test_module_item_cross_file_unresolved() {
    check_resolve_tmpfs(vec![named(
        "Main",
        // language=Move
        r#"
//- /m.move
module std::m {
    public fun call() {}
}
//- /main.move
module std::main {
    public fun main() {
        call();
       //^ unresolved
    }
}
"#,
    )])
}

// language=Move
#[test]
fn test_module_unresolved_by_name_from_use_speck() {
    check_resolve(
        r#"
module std::m {
}
module std::main {
    use std::m::m;
              //^ unresolved
}
"#,
    )
}

#[test]
fn test_resolve_module_spec_without_address() {
    check_resolve(
        // language=Move
        r#"
spec main {
   //^ unresolved
}
    "#,
    )
}

#[test]
fn test_resolve_spec_function_from_module_spec_with_no_path() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {}
spec {
    spec main {
        //^ unresolved
    }
}
    "#,
    )
}

#[test]
fn test_resolve_spec_function_from_module_spec_with_no_path_with_address() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {}
spec {
    spec 0x1::main {
             //^ no reference
    }
}
    "#,
    )
}

#[test]
fn test_resolve_spec_function_parameter_with_invalid_pat() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {
    fun main(a: u8, b: u8, _: u8) {}
           //X
}
spec 0x1::main {
    spec main(a: u8, b: u8, _: u8) {}
            //^
}
    "#,
    )
}

#[test]
fn test_resolve_friend_function_with_non_standard_named_address() {
    check_resolve(
        // language=Move
        r#"
module aptos_token_objects::collection {
    friend aptos_token_objects::token;
    friend fun decrement_supply() {}
                //X
}
module aptos_token_objects::token {
    use aptos_token_objects::collection;
    fun main() {
        collection::decrement_supply();
                     //^
    }
}
    "#,
    )
}

#[test]
fn test_resolve_to_variable_in_presence_of_global_var_with_same_name() {
    check_resolve(
        // language=Move
        r#"
spec std::m {
    spec module {
        global supply<CoinType>: num;
    }
}
module std::m {
    fun supply(): u8 { 1 }
    fun main() {
        let supply = 1;
           //X
        spec {
            supply;
            //^
        }
    }
}
    "#,
    )
}

#[test]
fn test_resolve_const_in_script() {
    check_resolve(
        // language=Move
        r#"
script {
    const MY_CONST: u64 = 1;
          //X
    fun main() {
        MY_CONST;
         //^
    }
}
    "#,
    )
}

#[test]
fn test_resolve_match_struct_lit_enum_field_to_the_function_value() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {
    enum S { Variant { field: |bool| bool }}
                       //X
    fun main() {
        ()(S::Variant { field: myfield });
                          //^
    }
}    "#,
    )
}

#[test]
fn test_resolve_match_struct_lit_field_to_the_function_value() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {
    struct S { field: |bool| bool }
                //X
    fun main() {
        ()(S { field: |_| true });
                //^
    }
}    "#,
    )
}

#[test]
fn test_resolve_enum_field_from_one_of_variants_only_with_function_value() {
    check_resolve(
        // language=Move
        r#"
module 0x1::main {
    struct S { val: u8 }
              //X
    fun main() {
        let a = (|| { S { val: 1 } })();
        a.val;
          //^
    }
}
"#,
    )
}

#[test]
fn test_resolve_test_function_from_another_test_function() {
    check_resolve(
        // language=Move
        r#"
module std::main {
    #[test]
    fun test_main() {
        //X
    }
    #[test]
    fun test_main_2() {
        test_main();
         //^
    }
}"#,
    )
}

#[test]
fn test_resolve_test_function_from_test_only_function() {
    check_resolve(
        // language=Move
        r#"
module std::main {
    #[test]
    fun test_main() {
        //X
    }
    #[test_only]
    fun test_main_2() {
        test_main();
         //^
    }
}"#,
    )
}

#[test]
fn test_cannot_resolve_test_function_from_non_test_only_function() {
    check_resolve(
        // language=Move
        r#"
module std::main {
    #[test]
    fun test_main() {
    }
    fun test_main_2() {
        test_main();
         //^ unresolved
    }
}"#,
    )
}

#[test]
fn test_resolve_field_without_expr_in_struct_lit() {
    check_resolve(
        // language=Move
        r#"
module std::main {
    struct Any<T> { val: T }
                  //X
    fun test_main_2() {
        Any { val: };
             //^
    }
}"#,
    )
}

#[test]
fn test_resolve_field_without_expr_in_struct_pat() {
    check_resolve(
        // language=Move
        r#"
module std::main {
    struct Any<T> { val: T }
                  //X
    fun test_main_2() {
        let Any { val: };
                 //^
    }
}"#,
    )
}

#[test]
fn test_self_variable_in_spec_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            struct S { val: u8 }
                       //X
            spec S {
                self.val;
                    //^
            }
        }
    "#,
    )
}

#[test]
fn test_spec_enum_variant_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            enum S { One, Two { val: u8 } }
                               //X
            spec S {
                val;
               //^
            }
        }
    "#,
    )
}

#[test]
fn test_self_variable_in_spec_enum_variant_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            enum S { One, Two { val: u8 } }
                               //X
            spec S {
                self.val;
                    //^
            }
        }
    "#,
    )
}

#[test]
fn test_functions_with_test_attribute_and_one_liner_expected_failure_as_test_only_too() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            #[test_only]
            fun test_only_fun() {}
                //X
            #[test, expected_failure(abort_code = 0)]
            fun test_main() {
                test_only_fun();
                  //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_test_only_under_test_with_addresses() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            #[test_only]
            fun test_only_fun() {}
                //X
            #[test(fx = @std)]
            fun test_main() {
                test_only_fun();
                  //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_public_struct_constructor() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public struct S { val: u8 }
                        //X
        }
        module 0x1::main {
            use 0x1::s::S;
            fun main() {
                S { val: 1 };
              //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_public_struct_constructor_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public struct S { val: u8 }
                             //X
        }
        module 0x1::main {
            use 0x1::s::S;
            fun main() {
                S { val: 1 };
                  //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_public_struct_dot_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public struct S { val: u8 }
                             //X
        }
        module 0x1::main {
            use 0x1::s::S;
            fun main(s: S) {
                s.val;
                //^
            }
        }
    "#,
    )
}

#[test]
fn test_public_enum_match() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public enum S { One, Two }
                          //X
        }
        module 0x1::main {
            use 0x1::s::S;
            fun main(s: S) {
                match (s) {
                    S::One => 1,
                     //^
                    S::Two => 2,
                };
            }
        }
    "#,
    )
}

#[test]
fn test_public_enum_match_field() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public enum S { One { val: u8 }, Two { val: u8 } }
                                 //X
        }
        module 0x1::main {
            use 0x1::s::S;
            fun main(s: S) {
                match (s) {
                    S::One { val } => val,
                            //^
                    S::Two { val } => val,
                };
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_tuple_struct() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            struct TransformationFunction(u8);
                     //X
        }
        module 0x1::main {
            use 0x1::s::TransformationFunction;
            fun main(f: TransformationFunction) {
                          //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_tuple_struct_from_use_item() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            struct TransformationFunction(u8);
                     //X
        }
        module 0x1::main {
            use 0x1::s::TransformationFunction;
                        //^
        }
    "#,
    )
}

#[test]
fn test_resolve_struct_with_wrapped_lambda() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            struct TransformationFunction<phantom P>(|&P| P);
                     //X
        }
        module 0x1::main {
            use 0x1::s::TransformationFunction;
            fun main(f: TransformationFunction<u8>) {
                          //^
            }
        }
    "#,
    )
}

#[test]
fn test_cannot_resolve_private_const() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            const MY_CONST: u8 = 1;
        }
        module 0x1::main {
            use 0x1::s;
            fun main() {
                let a = s::MY_CONST;
                            //^ unresolved
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_public_const() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            public const MY_CONST: u8 = 1;
                        //X
        }
        module 0x1::main {
            use 0x1::s;
            fun main() {
                let a = s::MY_CONST;
                            //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_package_const() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::s {
            package const MY_CONST: u8 = 1;
                        //X
        }
        module 0x1::main {
            use 0x1::s;
            fun main() {
                let a = s::MY_CONST;
                            //^
            }
        }
    "#,
    )
}

#[test]
fn signer_address_of_is_available_as_a_receiver_style_method() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::signer {
            public native fun address_of(self: &signer): address;
                              //X
        }
        module 0x1::main {
            fun main(acc: &signer) {
                acc.address_of();
                       //^
            }
        }
    "#,
    )
}

#[test]
fn test_resource_index_expr_autoborrows() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            struct Res has key { val: u8 }
            fun read_val(self: &Res): u8 { self.val }
                 //X
            fun main() {
                Res[@0x1].read_val();
                         //^
            }
        }
    "#,
    )
}

#[test]
fn test_resource_index_expr_autoborrows_mut() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            struct Res has key { val: u8 }
            fun write_val(self: &mut Res, f: u8) { self.val = f; }
                 //X
            fun main() {
                Res[@0x1].write_val();
                         //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_function_values_under_aborts_of() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            fun main() {}
                //X
            spec main {
                aborts_of<main>();
                           //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_function_values_under_requires_of() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            fun main() {}
                //X
            spec main {
                requires_of<main>();
                           //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_function_values_under_ensures_of() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            fun main() {}
                //X
            spec main {
                ensures_of<main>();
                           //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_function_values_under_result_of() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::main {
            fun main() {}
                //X
            spec main {
                result_of<main>();
                           //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_function_values_under_ensures_of_in_other_module() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::config {
            public fun call() {}
                        //X
        }
        module 0x1::main {
            use 0x1::config;
            fun main() {}
            spec main {
                ensures result_of<config::call>();
                                         //^
            }
        }
    "#,
    )
}

#[test]
fn test_resolve_type_parameter_for_the_function_value_of_result_of() {
    // language=Move
    check_resolve(
        r#"
        module 0x1::config {
            struct Version {}
                    //X
            public fun call<T>(t: T) {}
        }
        module 0x1::main {
            use 0x1::config::{Self, Version};
            fun main() {}
            spec main {
                ensures result_of<config::call<Version>>();
                                              //^
            }
        }
    "#,
    )
}
