// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::resolve::check_resolve_tmpfs;
use test_utils::fixtures::test_state::{named, named_with_deps, package};

#[test]
fn test_module_item_cross_tmpfs() {
    check_resolve_tmpfs(vec![named(
        "WsRoot",
        // language=Move
        r#"
//- /m.move
module std::m {
    public fun call() {}
              //X
}
//- /main.move
module std::main {
    use std::m::call;
    public fun main() {
        call();
       //^
    }
}
"#,
    )])
}

#[test]
fn test_cross_package_resolve_with_public_package() {
    check_resolve_tmpfs(vec![named(
        "main",
        // language=Move
        r#"
//- /main.move
module std::main {
    use std::m::call;
    public fun main() {
        call();
       //^
    }
}
//- /m.move
module std::m {
    public(package) fun call() {}
                       //X
}
"#,
    )])
}

#[test]
fn test_cross_package_resolve() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dependencies]
M = { local = "../m"}
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::m::call;
    public fun main() {
        call();
       //^
    }
}
"#,
        ),
        named(
            "m",
            // language=Move
            r#"
//- /m.move
module std::m {
    public fun call() {}
              //X
}
"#,
        ),
    ])
}

#[test]
fn test_transitive_dependency() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dependencies]
AptosStd = { local = "../aptos_std" }
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::table::Table;
    public fun main(t: Table) {
                      //^
    }
}
"#,
        ),
        named_with_deps(
            "aptos_std",
            // language=TOML
            r#"
[dependencies]
Std = { local = "../std" }
        "#,
            // language=Move
            r#""#,
        ),
        named(
            "std",
            // language=Move
            r#"
//- /table.move
module std::table {
    struct Table { val: u8 }
            //X
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_to_item_which_occurs_in_dep_tree_twice() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dependencies]
AptosStd = { local = "../aptos_std" }
Std = { local = "../std" }
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::table::Table;
    public fun main(t: Table) {
                      //^
    }
}
"#,
        ),
        named_with_deps(
            "aptos_std",
            // language=TOML
            r#"
[dependencies]
Std = { local = "../std" }
        "#,
            // language=Move
            r#""#,
        ),
        named(
            "std",
            // language=Move
            r#"
//- /table.move
module std::table {
    struct Table { val: u8 }
            //X
}
"#,
        ),
    ])
}

#[test]
fn test_cannot_resolve_dependency_if_no_toml_declaration() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dependencies]
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::table::Table;
    public fun main(t: Table) {
                      //^ unresolved
    }
}
"#,
        ),
        named_with_deps(
            "aptos_std",
            // language=TOML
            r#"
[dependencies]
Std = { local = "../std" }
        "#,
            // language=Move
            r#""#,
        ),
        named(
            "std",
            // language=Move
            r#"
//- /table.move
module std::table {
    struct Table { val: u8 }
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_to_item_in_dep_after_circular() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            r#"
[dependencies]
Std = { local = "../std" }
AptosStd = { local = "../aptos_std" }
        "#,
            r#""#,
        ),
        named_with_deps(
            "aptos_std",
            r#"
[dependencies]
Std = { local = "../std" }
Std2 = { local = "../std2" }
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::table::Table;
    public fun main(t: Table) {
                      //^
    }
}
"#,
        ),
        named(
            "std",
            // language=Move
            r#"
//- /table.move
module std::table {
    struct Table { val: u8 }
            //X
}
"#,
        ),
        named("std2", r#""#),
    ])
}

#[test]
fn test_resolve_spec_fun_from_related_module_spec() {
    let test_packages = vec![named(
        "AptosStd",
        // language=Move
        r#"
//- /any.move
module std::any {
    fun main() {
        spec {
            use std::from_bcs;
            from_bcs::deserializable();
                     //^
        }
    }
}
//- /from_bcs.move
module std::from_bcs {}

//- /from_bcs.spec.move
spec std::from_bcs {
    spec module {
        fun deserializable(bytes: vector<u8>): bool;
            //X
    }
}
        "#,
    )];
    check_resolve_tmpfs(test_packages);
}

#[test]
fn test_friend_module_item_from_tests_directory_of_the_dependency() {
    let test_packages = vec![named(
        "Std",
        // language=Move
        r#"
//- /sources/main.move
module std::main {
    #[test_only]
    friend std::mem_tests;

    friend fun test_call() {
              //X
    }
}
//- /tests/mem_tests.move
#[test_only]
module std::mem_tests {
    use std::main;

    #[test]
    fun test_main() {
        main::test_call();
                   //^
    }
}
        "#,
    )];
    check_resolve_tmpfs(test_packages);
}

#[test]
fn test_resolve_from_dev_dependency() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dev-dependencies]
M = { local = "../m"}
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    use std::m::call;
    public fun main() {
        call();
       //^
    }
}
"#,
        ),
        named(
            "m",
            // language=Move
            r#"
//- /m.move
module std::m {
    public fun call() {}
              //X
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_spec_fun_from_tests_directory() {
    check_resolve_tmpfs(vec![named(
        "m",
        // language=Move
        r#"
//- /sources/m.move
module std::m {
    fun call() {}
    spec call {
        spec_stable_address();
            //^
    }
}
//- /tests/m.spec.move
spec std::m {
    spec fun spec_stable_address(): address {
             //X
        @0x1
    }
}
"#,
    )])
}

#[test]
fn test_resolve_with_fq_path_and_named_address_from_dependency() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
[dev-dependencies]
M = { local = "../m"}
        "#,
            // language=Move
            r#"
//- /main.move
module std::main {
    public fun main() {
        aptos_token_objects::m::call();
                               //^
    }
}
"#,
        ),
        package(
            "m",
            // language=TOML
            r#"
[package]
name = "M"
version = "0.1.0"

[addresses]
aptos_token_objects = "0x4"
            "#,
            // language=Move
            r#"
//- /m.move
module aptos_token_objects::m {
    public fun call() {}
              //X
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_modules_with_same_name_but_different_named_address_from_different_dependency_packages() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
        [dev-dependencies]
        m1 = { local = "../m1"}
        m2 = { local = "../m2"}
                "#,
            // language=Move
            r#"
        //- /main.move
        module std::main {
            public fun main() {
                m1addr::m::call();
                           //^
            }
        }
        "#,
        ),
        package(
            "m1",
            // language=TOML
            r#"
[package]
name = "m1"
version = "0.1.0"

[addresses]
m1addr = "0x11"
            "#,
            // language=Move
            r#"
//- /m1.move
module m1addr::m {
    public fun call() {}
              //X
}
"#,
        ),
        package(
            "m2",
            // language=TOML
            r#"
[package]
name = "m2"
version = "0.1.0"

[addresses]
m2addr = "0x12"
            "#,
            // language=Move
            r#"
//- /m2.move
module m2addr::m {
    public fun call() {}
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_modules_with_different_name_for_the_same_value_address() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
        [addresses]
        m1myaddress = "0x11"

        [dev-dependencies]
        m1 = { local = "../m1"}
                "#,
            // language=Move
            r#"
        //- /main.move
        module std::main {
            public fun main() {
                m1myaddress::m::call();
                               //^
            }
        }
        "#,
        ),
        package(
            "m1",
            // language=TOML
            r#"
[package]
name = "m1"
version = "0.1.0"

[addresses]
m1addr = "0x11"
            "#,
            // language=Move
            r#"
//- /m1.move
module m1addr::m {
    public fun call() {}
              //X
}
"#,
        ),
    ])
}

#[test]
fn test_resolve_modules_with_different_name_for_the_same_value_address_same_package() {
    check_resolve_tmpfs(vec![
        named_with_deps(
            "main",
            // language=TOML
            r#"
        [addresses]
        my_addr = "0x7"
        renamed_addr = "0x7"

        [dependencies]
        m1 = { local = "../m1"}
                "#,
            // language=Move
            r#"
        //- /main.move
        module 0x1::main {
            public fun main() {
                use renamed_addr::market_types::{
                    call
                };
                fun main() {
                    call();
                     //^
                }
            }
        }
        "#,
        ),
        package(
            "m1",
            // language=TOML
            r#"
[package]
name = "m1"
version = "0.1.0"

[addresses]
my_addr = "0x7"
            "#,
            // language=Move
            r#"
//- /trading/market/market_types.move
module my_addr::market_types {
    public fun call() {}
              //X
}
"#,
        ),
    ])
}
