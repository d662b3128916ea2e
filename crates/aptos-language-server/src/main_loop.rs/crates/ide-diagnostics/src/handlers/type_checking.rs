// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::DiagnosticsContext;
use crate::diagnostic::Diagnostic;
use lang::types::fold::TypeFoldable;
use lang::types::inference::TypeError;
use lang::types::ty::Ty;
use stdx::itertools::Itertools;
use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
use syntax::files::{FileRange, InFile, InFileExt};
use syntax::{AstNode, ast};
use vfs::FileId;

pub(crate) fn recursive_struct_check(
    acc: &mut Vec<Diagnostic>,
    ctx: &DiagnosticsContext<'_>,
    named_field: InFile<ast::NamedField>,
) -> Option<()> {
    let _p = tracing::debug_span!("recursive_struct_check").entered();
    if ctx.config.assists_only {
        return None;
    }
    let (file_id, named_field) = named_field.unpack();
    let field_type = named_field.type_()?;
    let leaf_path_types = field_type.syntax().descendants_of_type::<ast::PathType>();

    let owner_item = named_field.fields_owner().struct_or_enum().in_file(file_id);
    let owner_item_name = owner_item.value.name()?.as_string();
    for leaf_path_type in leaf_path_types {
        let leaf_path = leaf_path_type.path().in_file(file_id);
        let item = ctx
            .sema
            .resolve_to_element::<ast::StructOrEnum>(leaf_path.clone());
        if let Some(item) = item {
            if item == owner_item {
                register_type_error(
                    acc,
                    ctx,
                    file_id,
                    &TypeError::circular_type(leaf_path.value, owner_item_name.clone()),
                );
            }
        }
    }

    Some(())
}

pub(crate) fn type_check(
    acc: &mut Vec<Diagnostic>,
    ctx: &DiagnosticsContext<'_>,
    inference_ctx_owner: &InFile<ast::InferenceCtxOwner>,
) -> Option<()> {
    let _p = tracing::debug_span!("type_check").entered();
    if ctx.config.assists_only {
        // no assists for type checking
        return None;
    }
    let msl = inference_ctx_owner.value.syntax().is_msl_context();
    let inference = ctx.sema.inference(inference_ctx_owner, msl)?;
    let file_id = inference_ctx_owner.file_id;

    let mut remaining_errors = inference.type_errors.clone();
    // drop all type errors with ty unknown inside to prevent false positives
    remaining_errors.retain(|type_error| !type_error.has_ty_unknown());

    remaining_errors.sort_by_key(|err| err.text_range().start());
    // need to reverse() to pop() correctly
    remaining_errors.reverse();
    'outer: while let Some(type_error) = remaining_errors.pop() {
        // if any of the remaining errors are inside the range, then drop the error
        let error_range = type_error.text_range();
        for remaining_error in remaining_errors.iter() {
            if error_range.contains_range(remaining_error.text_range()) {
                continue 'outer;
            }
        }
        register_type_error(acc, ctx, file_id, &type_error);
    }

    Some(())
}

fn register_type_error(
    acc: &mut Vec<Diagnostic>,
    ctx: &DiagnosticsContext<'_>,
    file_id: FileId,
    type_error: &TypeError,
) {
    match type_error {
        TypeError::TypeMismatch {
            text_range,
            actual_ty,
            expected_ty,
        } => {
            let actual = ctx.sema.render_ty(actual_ty);
            let expected = ctx.sema.render_ty(expected_ty);
            // handle duplicate AptosFramework dependencies
            if actual == expected {
                return;
            }
            acc.push(Diagnostic::error(
                "type-error",
                format!("Incompatible type '{actual}', expected '{expected}'"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::TypeMismatchAny {
            text_range,
            expected_tys,
            actual_ty,
        } => {
            let actual = ctx.sema.render_ty(actual_ty);
            let expected_tys = expected_tys
                .iter()
                .map(|it| format!("'{}'", ctx.sema.render_ty(it)))
                .join(", ");
            acc.push(Diagnostic::error(
                "type-error",
                format!("Incompatible type '{actual}', expected any of [{expected_tys}]"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::UnsupportedOp { text_range, ty, op } => {
            let ty = ctx.sema.render_ty(ty);
            acc.push(Diagnostic::error(
                "type-error",
                format!("Invalid argument to '{op}': expected integer type, but found '{ty}'"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::WrongArgumentsToBinExpr {
            text_range,
            left_ty,
            right_ty,
            op,
        } => {
            let left_ty = ctx.sema.render_ty(left_ty);
            let right_ty = ctx.sema.render_ty(right_ty);
            acc.push(Diagnostic::error(
                "type-error",
                format!("Incompatible arguments to '{op}': '{left_ty}' and '{right_ty}'"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::InvalidUnpacking {
            text_range,
            pat_kind: kind,
            assigned_ty,
        } => {
            use syntax::SyntaxKind::*;

            let message = match kind {
                STRUCT_PAT if !matches!(assigned_ty, Ty::Adt(_) | Ty::Tuple(_)) => {
                    format!(
                        "Assigned expr of type '{}' cannot be unpacked with struct pattern",
                        ctx.sema.render_ty(assigned_ty)
                    )
                }
                TUPLE_PAT if !matches!(assigned_ty, Ty::Adt(_) | Ty::Tuple(_)) => {
                    format!(
                        "Assigned expr of type '{}' cannot be unpacked with tuple pattern",
                        ctx.sema.render_ty(assigned_ty)
                    )
                }
                _ => {
                    format!(
                        "Invalid unpacking. Expected {}",
                        ctx.sema.render_ty_expected_form(assigned_ty)
                    )
                }
            };
            acc.push(Diagnostic::error(
                "type-error",
                message,
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::CircularType { text_range, type_name } => acc.push(Diagnostic::error(
            "type-error",
            format!("Circular reference of type '{type_name}'"),
            FileRange { file_id, range: *text_range },
        )),
        TypeError::WrongArgumentToBorrowExpr { text_range, actual_ty } => {
            let ty = ctx.sema.render_ty(actual_ty);
            acc.push(Diagnostic::error(
                "type-error",
                format!("Expected a single non-reference type, but found '{ty}'"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::InvalidDereference { text_range, actual_ty } => {
            let ty = ctx.sema.render_ty(actual_ty);
            acc.push(Diagnostic::error(
                "type-error",
                format!("Invalid dereference. Expected '&_' but found '{ty}'"),
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::MissingAbilities {
            text_range,
            actual_ty,
            abilities,
        } => {
            let message = match abilities.len() {
                0 => unreachable!(),
                1 => {
                    format!(
                        "Type `{}` does not have required ability `{}`",
                        ctx.sema.render_ty(actual_ty),
                        abilities.first().unwrap()
                    )
                }
                _ => {
                    format!(
                        "Type `{}` does not have required abilities `{:?}`",
                        ctx.sema.render_ty(actual_ty),
                        abilities,
                    )
                }
            };
            acc.push(Diagnostic::error(
                "missing-ability-on-type-arg",
                message,
                FileRange { file_id, range: *text_range },
            ))
        }
        TypeError::InvalidTypeArgument { text_range, actual_ty } => {
            let ty = ctx.sema.render_ty(actual_ty);
            acc.push(Diagnostic::error(
                "type-error",
                format!("Type `{ty}` is not allowed as a type argument"),
                FileRange { file_id, range: *text_range },
            ))
        }
    }
}
