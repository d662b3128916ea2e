// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

use crate::completions::reference::paths::{PathCompletionCtx, PathKind};
use crate::context::CompletionContext;
use crate::item::CompletionItemBuilder;
use crate::render::new_named_item;
use lang::types::has_type_params_ext::GenericItemExt;
use syntax::ast;
use syntax::files::InFile;

pub(crate) fn render_struct_or_enum(
    ctx: &CompletionContext<'_>,
    item_name: String,
    path_ctx: &PathCompletionCtx,
    struct_or_enum: InFile<ast::StructOrEnum>,
) -> CompletionItemBuilder {
    let mut item_builder = new_named_item(ctx, &item_name, struct_or_enum.kind());

    let has_type_params = !struct_or_enum.ty_type_params().is_empty();
    let snippet = match path_ctx.path_kind {
        PathKind::Type => {
            if has_type_params {
                format!("{item_name}<$0>")
            } else {
                format!("{item_name}$0")
            }
        }
        _ => format!("{item_name}$0"),
    };
    item_builder.insert_snippet(snippet);

    item_builder
}

pub(crate) fn render_schema(
    ctx: &CompletionContext<'_>,
    item_name: String,
    schema: InFile<ast::Schema>,
) -> CompletionItemBuilder {
    let mut item_builder = new_named_item(ctx, &item_name, schema.kind());

    let has_type_params = !schema.ty_type_params().is_empty();
    let snippet = if has_type_params {
        format!("{item_name}<$0>")
    } else {
        format!("{item_name}$0")
    };
    item_builder.insert_snippet(snippet);

    item_builder
}
