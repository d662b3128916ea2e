// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::nameres;
use crate::nameres::get_named_field_entries;
use crate::nameres::name_resolution::{WalkScopesCtx, get_entries_from_walking_scopes};
use crate::nameres::namespaces::{CONTAINER_TYPE_NS, ENUM_VARIANTS, Ns};
use crate::nameres::scope::{ScopeEntry, ScopeEntryListExt, VecExt};
use crate::types::ty::Ty;
use base_db::SourceDatabase;
use syntax::SyntaxKind::*;
use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
use syntax::files::{InFile, InFileExt};
use syntax::{AstNode, ast};

pub fn resolve_ident_pat_with_expected_type(
    db: &dyn SourceDatabase,
    ident_pat: InFile<ast::IdentPat>,
    expected_type: Option<Ty>,
) -> Option<ScopeEntry> {
    let binding_entries = get_ident_pat_resolve_variants(db, ident_pat.clone(), false);
    binding_entries
        .filter_by_expected_type(db, expected_type)
        .filter_by_name(ident_pat.value.to_string())
        .single_or_none()
}

pub fn get_ident_pat_resolve_variants(
    db: &dyn SourceDatabase,
    ident_pat: InFile<ast::IdentPat>,
    is_completion: bool,
) -> Vec<ScopeEntry> {
    let (file_id, ident_pat) = ident_pat.unpack();

    let mut entries = vec![];
    if let Some(struct_pat_field) = ident_pat.syntax().parent_of_type::<ast::StructPatField>() {
        let pat_path = struct_pat_field.struct_pat().path().in_file(file_id);
        let fields_owner = nameres::resolve_no_inf_cast::<ast::FieldsOwner>(db, pat_path);
        // can be null if unresolved
        if let Some(fields_owner) = fields_owner {
            entries.extend(get_named_field_entries(fields_owner));
            if is_completion {
                return entries;
            }
        }
    }

    let ns = if is_completion {
        CONTAINER_TYPE_NS | Ns::MODULE
    } else {
        ENUM_VARIANTS
    };

    let walk_ctx = WalkScopesCtx {
        allowed_ns: ns,
        expected_name: Some(ident_pat.to_string()),
        start_at: ident_pat.in_file(file_id).syntax(),
    };
    let binding_entries = get_entries_from_walking_scopes(db, walk_ctx);
    for binding_entry in binding_entries {
        if let Some(named_item) = binding_entry.cast_into::<ast::NamedElement>(db) {
            let is_constant_like = is_constant_like(&named_item);
            let is_path_or_destructuble = matches!(named_item.kind(), ENUM | VARIANT | STRUCT);
            if is_constant_like || (is_completion && is_path_or_destructuble) {
                entries.push(binding_entry);
            }
        };
    }

    entries
}

/**
 * It is possible to match value with constant-like element, e.g.
 *      ```
 *      enum Kind { A }
 *      use Kind::A;
 *      match kind { A => ... } // `A` is a constant-like element, not a pat binding
 *      ```
 *
 * But there is no way to distinguish a pat binding from a constant-like element on syntax level,
 * so we resolve an item `A` first, and then use [isConstantLike] to check whether the element is constant-like or not.
 *
 * Constant-like element can be: real constant, static variable, and enum variant without fields.
 */
fn is_constant_like(named_item: &InFile<ast::NamedElement>) -> bool {
    if named_item.kind() == CONST {
        return true;
    }
    if let Some(fields_owner) = named_item.cast_into_ref::<ast::FieldsOwner>() {
        if fields_owner.value.is_fieldless() {
            return true;
        }
    }
    false
}
