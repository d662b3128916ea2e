// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::ast::{AstChildren, FieldsOwner, HasAttrs, HasStmts, support};
use crate::{AstNode, ast};

pub trait HasItems: AstNode {
    fn items(&self) -> AstChildren<ast::Item> {
        support::children(&self.syntax())
    }

    fn consts(&self) -> Vec<ast::Const> {
        self.items().into_iter().filter_map(|it| it.const_()).collect()
    }

    fn enums(&self) -> Vec<ast::Enum> {
        self.items().into_iter().filter_map(|it| it.enum_()).collect()
    }

    fn enum_variants(&self) -> Vec<ast::Variant> {
        let enums = self.enums();
        let mut res = Vec::with_capacity(enums.len() * 2);
        for enum_ in enums {
            res.extend(enum_.variants());
        }
        res
    }

    fn non_test_functions(&self) -> Vec<ast::Fun> {
        self.functions()
            .into_iter()
            .filter(|fun| !fun.is_test())
            .collect()
    }

    fn functions(&self) -> Vec<ast::Fun> {
        self.items().into_iter().filter_map(|it| it.fun()).collect()
    }

    fn structs(&self) -> Vec<ast::Struct> {
        self.items().into_iter().filter_map(|it| it.struct_()).collect()
    }

    /// returns both `spec ITEM {}` and `spec module {}`
    fn all_item_specs(&self) -> Vec<ast::ItemSpec> {
        self.items().into_iter().filter_map(|it| it.item_spec()).collect()
    }

    fn module_item_specs(&self) -> Vec<ast::ItemSpec> {
        self.all_item_specs()
            .into_iter()
            .filter(|it| it.module_token().is_some())
            .collect()
    }

    fn item_specs(&self) -> Vec<ast::ItemSpec> {
        self.all_item_specs()
            .into_iter()
            .filter(|it| it.item_spec_ref().is_some())
            .collect()
    }

    fn spec_functions(&self) -> Vec<ast::SpecFun> {
        self.items().into_iter().filter_map(|it| it.spec_fun()).collect()
    }

    fn spec_inline_functions(&self) -> Vec<ast::SpecInlineFun> {
        self.module_item_specs()
            .into_iter()
            .flat_map(|it| {
                it.spec_block()
                    .map(|it| it.spec_inline_functions())
                    .unwrap_or_default()
            })
            .collect()
    }

    fn global_variables(&self) -> Vec<ast::GlobalVariableDecl> {
        self.module_item_specs()
            .iter()
            .flat_map(|it| {
                it.spec_block()
                    .map(|it| it.global_variables())
                    .unwrap_or_default()
            })
            .collect()
    }

    fn schemas(&self) -> Vec<ast::Schema> {
        self.items().into_iter().filter_map(|it| it.schema()).collect()
    }

    fn tuple_structs(&self) -> Vec<ast::Struct> {
        self.structs()
            .into_iter()
            .filter(|s| s.is_tuple_struct())
            .collect()
    }

    fn lemmas(&self) -> Vec<ast::Lemma> {
        let mut lemmas = vec![];
        // top-level lemmas
        lemmas.extend(
            self.items()
                .into_iter()
                .filter_map(|it| it.spec_lemma().and_then(|it| it.lemma())),
        );
        lemmas.extend(
            self.module_item_specs()
                .iter()
                .flat_map(|it| it.spec_block().map(|it| it.lemmas()).unwrap_or_default()),
        );
        lemmas
    }
}
