// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::DiagnosticsContext;
use crate::diagnostic::Diagnostic;
use crate::handlers::can_be_replaced_with_index_expr::is_std_vector_borrow;
use ide_db::assist_context::LocalAssists;
use lang::types::fold::TypeFoldable;
use lang::types::has_type_params_ext::GenericItemExt;
use lang::types::inference::TyVarIndex;
use lang::types::substitution::ApplySubstitution;
use syntax::SyntaxKind::BORROW_EXPR;
use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
use syntax::ast::syntax_factory::SyntaxFactory;
use syntax::files::{FileRange, InFile, InFileExt};
use syntax::{AstNode, ast};

#[tracing::instrument(level = "debug", skip_all)]
pub(crate) fn can_be_replaced_with_method_call(
    acc: &mut Vec<Diagnostic>,
    ctx: &DiagnosticsContext<'_>,
    call_expr: InFile<ast::CallExpr>,
) -> Option<()> {
    let msl = call_expr.value.syntax().is_msl_context();

    if let Some(_) = call_expr.value.syntax().ancestor_strict::<ast::LambdaExpr>() {
        // We're under lambda body. Type inference is incomplete in the aptos-cli, so we need to skip suggestion.
        return None;
    }

    let reference = call_expr
        .clone()
        .and_then(|it| it.path())?
        .map(|it| it.reference());

    // skip *vector::borrow()
    if let Some(parent_expr) = call_expr.value.syntax().parent()
        && parent_expr.is::<ast::DerefExpr>()
        && is_std_vector_borrow(&ctx.sema, reference.clone()).unwrap_or(false)
    {
        return None;
    }

    let fun = ctx.sema.resolve_to_element::<ast::Fun>(reference)?;

    let self_param = fun.value.self_param()?;
    let self_param_type = self_param.type_()?;

    let first_arg_expr = call_expr.value.arg_exprs().first()?.to_owned()?;
    let first_arg_ty = ctx
        .sema
        .get_expr_type(&first_arg_expr.in_file(call_expr.file_id))?;

    // if function module is different to the first argument expr module,
    // then it's not a method even if `self` argument is present
    let fun_module = ctx.sema.fun_module(fun.clone())?.value;
    let arg_ty_module = ctx.sema.ty_module(&first_arg_ty)?;
    if fun_module != arg_ty_module {
        return None;
    }

    let fun_subst = fun.ty_vars_subst(&TyVarIndex::default());
    let self_ty = ctx
        .sema
        .lower_type(self_param_type.in_file(fun.file_id), msl)
        .substitute(&fun_subst);

    if self_ty.has_ty_unknown() || first_arg_ty.has_ty_unknown() {
        return None;
    }

    if ctx.sema.is_tys_compatible(first_arg_ty, self_ty, true) {
        acc.push(
            Diagnostic::weak_warning(
                "replace-with-method-call",
                "Can be replaced with method call",
                call_expr.file_range(),
            )
            .with_local_fixes(fixes(ctx, call_expr.clone(), call_expr.file_range())),
        )
    }

    Some(())
}

#[tracing::instrument(level = "trace", skip_all)]
fn fixes(
    ctx: &DiagnosticsContext<'_>,
    call_expr: InFile<ast::CallExpr>,
    diagnostic_range: FileRange,
) -> Option<LocalAssists> {
    let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;

    let call_expr = call_expr.value;

    let mut receiver_expr = call_expr.arg_exprs().first()?.to_owned()?;
    if receiver_expr.syntax().kind() == BORROW_EXPR {
        receiver_expr = receiver_expr.borrow_expr().unwrap().expr()?;
    }

    let name = call_expr.path()?.reference_name()?;
    let type_arg_list = call_expr.path()?.segment().and_then(|it| it.type_arg_list());

    let method_args = call_expr
        .arg_exprs()
        .clone()
        .into_iter()
        .skip(1)
        .collect::<Vec<_>>();
    if method_args.iter().any(|it| it.is_none()) {
        return None;
    }
    let method_args = method_args.into_iter().map(|it| it.unwrap()).collect::<Vec<_>>();

    assists.add_fix(
        "replace-with-method-call",
        "Replace with method call",
        diagnostic_range.range,
        |editor| {
            use syntax::SyntaxKind::*;

            let make = SyntaxFactory::new();
            match receiver_expr.syntax().kind() {
                // all AtomExpr list, same priority as MvDotExpr
                VECTOR_LIT_EXPR | STRUCT_LIT | TUPLE_EXPR | PAREN_EXPR | ANNOTATED_EXPR | DOT_EXPR
                | METHOD_CALL_EXPR | INDEX_EXPR | CALL_EXPR | ASSERT_MACRO_EXPR | PATH_EXPR
                | LAMBDA_EXPR | LITERAL | BLOCK_EXPR => {
                    // do nothing, those operations priorities are correct without parens
                }
                _ => {
                    receiver_expr = make.paren_expr(receiver_expr).into();
                }
            }
            let method_arg_list = make.arg_list(method_args);
            let method_call_expr = make.method_call_expr(
                receiver_expr,
                make.name_ref(&name),
                type_arg_list,
                method_arg_list,
            );
            editor.replace(call_expr.syntax(), method_call_expr.syntax());

            editor.add_mappings(make.finish_with_mappings());
        },
    );

    Some(assists)
}
