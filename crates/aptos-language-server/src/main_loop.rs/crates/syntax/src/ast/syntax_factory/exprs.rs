// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::ast::syntax_factory::{SyntaxFactory, ast_from_text};
use crate::syntax_editor::mapping::SyntaxMappingBuilder;
use crate::{AstNode, ast};

impl SyntaxFactory {
    pub fn bin_expr(&self, lhs: ast::Expr, op: ast::BinaryOp, rhs: ast::Expr) -> ast::BinExpr {
        let bin_expr = expr_from_text::<ast::BinExpr>(&format!("{lhs} {op} {rhs}")).clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(bin_expr.syntax().clone());
            builder.map_node(lhs.syntax().clone(), bin_expr.lhs().unwrap().syntax().clone());
            builder.map_node(rhs.syntax().clone(), bin_expr.rhs().unwrap().syntax().clone());
            builder.finish(&mut mapping);
        }
        bin_expr
    }

    pub fn index_expr(&self, base_expr: ast::Expr, arg_expr: ast::Expr) -> ast::IndexExpr {
        let index_expr =
            expr_from_text::<ast::IndexExpr>(&format!("{base_expr}[{arg_expr}]")).clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(index_expr.syntax().clone());
            builder.map_node(
                base_expr.syntax().clone(),
                index_expr.base_expr().syntax().clone(),
            );
            builder.map_node(
                arg_expr.syntax().clone(),
                index_expr.arg_expr().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }
        index_expr
    }

    pub fn borrow_expr(&self, inner_expr: ast::Expr, is_mut: bool) -> ast::BorrowExpr {
        let text = if is_mut {
            format!("&mut {inner_expr}")
        } else {
            format!("&{inner_expr}")
        };
        let borrow_expr = expr_from_text::<ast::BorrowExpr>(&text).clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(borrow_expr.syntax().clone());
            builder.map_node(
                inner_expr.syntax().clone(),
                borrow_expr.expr().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }
        borrow_expr
    }

    pub fn paren_expr(&self, inner_expr: ast::Expr) -> ast::ParenExpr {
        let paren_expr = expr_from_text::<ast::ParenExpr>(&format!("({inner_expr})")).clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(paren_expr.syntax().clone());
            builder.map_node(
                inner_expr.syntax().clone(),
                paren_expr.expr().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }
        paren_expr
    }

    pub fn path_expr(&self, path: ast::Path) -> ast::PathExpr {
        let path_expr = expr_from_text::<ast::PathExpr>(&format!("{path}")).clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(path_expr.syntax().clone());
            builder.map_node(path.syntax().clone(), path_expr.path().syntax().clone());
            builder.finish(&mut mapping);
        }
        path_expr
    }

    pub fn method_call_expr(
        &self,
        receiver: ast::Expr,
        name_ref: ast::NameRef,
        type_arg_list: Option<ast::TypeArgList>,
        value_arg_list: ast::ValueArgList,
    ) -> ast::MethodCallExpr {
        let type_arg_list_with_colon_colon = type_arg_list
            .as_ref()
            .map(|it| format!("::{it}"))
            .unwrap_or("".to_string());
        let method_call_expr = expr_from_text::<ast::MethodCallExpr>(&format!(
            "{receiver}.{name_ref}{type_arg_list_with_colon_colon}{value_arg_list}"
        ))
        .clone_for_update();
        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(method_call_expr.syntax().clone());
            builder.map_node(
                receiver.syntax().clone(),
                method_call_expr.receiver_expr().syntax().clone(),
            );
            builder.map_node(
                name_ref.syntax().clone(),
                method_call_expr.name_ref().unwrap().syntax().clone(),
            );
            if let Some(type_arg_list) = type_arg_list {
                builder.map_node(
                    type_arg_list.syntax().clone(),
                    method_call_expr.type_arg_list().unwrap().syntax().clone(),
                );
            }
            builder.map_node(
                value_arg_list.syntax().clone(),
                method_call_expr.value_arg_list().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }
        method_call_expr
    }

    pub fn lit_field_shorthand(&self, expr: ast::Expr) -> ast::StructLitField {
        let new_lit_field = ast_from_text::<ast::StructLitField>(&format!(
            "module 0x1::m {{ fun main() {{ S {{ {} }} }}",
            expr.syntax().text()
        ))
        .clone_for_update();

        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(new_lit_field.syntax.clone());
            builder.map_node(
                expr.syntax().clone(),
                new_lit_field.expr().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }

        new_lit_field
    }

    pub fn schema_lit_field_shorthand(&self, expr: ast::Expr) -> ast::SchemaLitField {
        let new_lit_field = ast_from_text::<ast::SchemaLitField>(&format!(
            "module 0x1::m {{ spec module {{ include S {{ {} }} }}",
            expr.syntax().text()
        ))
        .clone_for_update();

        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(new_lit_field.syntax.clone());
            builder.map_node(
                expr.syntax().clone(),
                new_lit_field.expr().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }

        new_lit_field
    }

    pub fn pat_field_shorthand(&self, ident_pat: ast::IdentPat) -> ast::StructPatField {
        let new_pat_field = ast_from_text::<ast::StructPatField>(&format!(
            "module 0x1::m {{ fun main() {{ let S {{ {} }} }}",
            ident_pat.syntax.text()
        ))
        .clone_for_update();

        if let Some(mut mapping) = self.mappings() {
            let mut builder = SyntaxMappingBuilder::new(new_pat_field.syntax.clone());
            builder.map_node(
                ident_pat.syntax().clone(),
                new_pat_field.ident_pat().unwrap().syntax().clone(),
            );
            builder.finish(&mut mapping);
        }

        new_pat_field
    }
}

pub(super) fn expr_from_text<E: Into<ast::Expr> + AstNode>(text: &str) -> E {
    let block_expr =
        ast_from_text::<ast::BlockExpr>(&format!("module 0x1::m {{ fun main() {{ {text} }} }}"));
    E::cast(block_expr.tail_expr().unwrap().syntax().clone()).unwrap()
}
