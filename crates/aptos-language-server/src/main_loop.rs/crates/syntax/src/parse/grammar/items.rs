// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

pub(crate) mod adt;
pub(crate) mod fun;
pub(crate) mod item_spec;
pub(crate) mod use_item;

use crate::SyntaxKind::*;
use crate::parse::grammar::expressions::blocks::use_stmt;
use crate::parse::grammar::expressions::{blocks, expr};
use crate::parse::grammar::items::fun::{
    function_modifier_kws, function_modifier_recovery_set, on_function_modifiers_start,
    on_visibility_modifier_start, visibility_modifier,
};
use crate::parse::grammar::patterns::STMT_FIRST;
use crate::parse::grammar::specs::proofs_and_lemmas::lemma;
use crate::parse::grammar::specs::schemas::schema;
use crate::parse::grammar::{attributes, name_or_recover, paths, types};
use crate::parse::parser::{Marker, Parser};
use crate::parse::recovery_set::RecoverySet;
use crate::parse::token_set::TokenSet;
use crate::{SyntaxKind, T};
use std::ops::ControlFlow::{Break, Continue};

pub(crate) fn item_list(p: &mut Parser) {
    assert!(p.at(T!['{']));
    p.bump(T!['{']);

    p.iterate_to_EOF(T!['}'], |p| {
        p.with_recovery_token(T!['}'], item);
        Continue(())
    });

    p.expect(T!['}']);
}

pub(super) fn item(p: &mut Parser) {
    let m = p.start();
    attributes::attrs(p);
    let m = match opt_item(p, m) {
        // let m = match opt_item(p, m) {
        Ok(()) => {
            if p.at(T![;]) {
                p.error_and_bump(
                    "expected item, found `;`\n\
                     consider removing this semicolon",
                );
            }
            return;
        }
        Err(m) => m,
    };
    m.abandon(p);

    // couldn't find an item
    match p.current() {
        T!['{'] => blocks::unexpected_block(p, "expected an item, got a block"),
        // T!['}'] if !stop_on_r_curly => {
        //     let e = p.start();
        //     p.error("unmatched `}`");
        //     p.bump(T!['}']);
        //     e.complete(p, ERROR);
        // }
        T!['}'] => p.error("unexpected '}'"),
        EOF => p.error("unexpected EOF"),
        _ => p.error_and_bump(&format!("expected an item, got {:?}", p.current())),
    }
}

fn vis_modifier_item_start() -> RecoverySet {
    RecoverySet::new()
        .with_ts(T![fun] | T![struct] | T![const])
        .with_kw("enum")
}

/// Try to parse an item, completing `m` in case of success.
pub(super) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
    match p.current() {
        T![use] => p.with_recovery(item_start_kws_only(), |p| use_stmt(p, m)),
        T![const] => const_(p, m),

        // todo: does not handle `friend native myfun()` cases
        T![friend]
            if !p.nth_at_rset(
                1,
                vis_modifier_item_start()
                    .with_ts(T![inline] | T![native])
                    .with_kw("entry"),
            ) =>
        {
            friend_decl(p, m)
        }

        // adt
        T![struct] => adt::struct_(p, m),
        IDENT if p.at_contextual_kw("enum") => adt::enum_(p, m),

        // fun
        T![fun] => fun::function(p, m),
        _ if on_function_modifiers_start(p) => fun::function(p, m),

        // visibility
        _ if on_visibility_modifier_start(p) => {
            p.iterate_to_EOF(TokenSet::EMPTY, |p| {
                if !visibility_modifier(p) {
                    return Break(());
                }
                Continue(())
            });
            match p.current() {
                T![struct] => adt::struct_(p, m),
                T![const] => const_(p, m),
                IDENT if p.at_contextual_kw("enum") => adt::enum_(p, m),
                _ => fun::function(p, m),
            }
        }

        T![spec] => {
            p.bump(T![spec]);
            if p.at_contextual_kw_ident("schema") {
                schema(p, m);
                return Ok(());
            }
            if p.at_contextual_kw_ident("lemma") {
                lemma(p);
                m.complete(p, SPEC_LEMMA);
                return Ok(());
            }
            match p.current() {
                T![fun] => fun::spec_function(p, m),
                _ if p.at_ts_fn(on_function_modifiers_start) => fun::spec_function(p, m),
                _ => item_spec::item_spec(p, m),
            }
        }
        _ => return Err(m),
    };
    Ok(())
}

fn const_(p: &mut Parser, m: Marker) {
    p.bump(T![const]);

    if !name_or_recover(p, item_start_rec_set().with_ts(T![;])) {
        m.complete(p, CONST);
        return;
    }

    p.with_recovery(item_start_rec_set().with_ts(T![;]), |p| {
        p.with_recovery_token(T![=], |p| {
            if p.at(T![:]) {
                types::type_annotation(p);
            } else {
                p.error("missing type annotation");
            }
        });
        initializer_expr(p);
    });

    p.expect(T![;]);
    m.complete(p, CONST);
}

pub(crate) fn initializer_expr(p: &mut Parser) {
    let m = p.start();
    if !p.expect(T![=]) {
        m.abandon(p);
        return;
    }
    let is_expr = expr(p);
    if !is_expr {
        p.error("expected expression");
    }
    m.complete(p, INITIALIZER);
}

pub(crate) fn friend_decl(p: &mut Parser, m: Marker) {
    p.bump(T![friend]);
    paths::path(p, None);
    p.expect(T![;]);
    m.complete(p, FRIEND);
}

pub(crate) fn at_block_start(p: &Parser) -> bool {
    p.at(T!['{'])
}

pub(crate) fn at_item_start(p: &Parser) -> bool {
    p.at_ts(ITEM_KEYWORDS)
        || p.at(T!['}'])
        || on_function_modifiers_start(p)
        || on_visibility_modifier_start(p)
        || p.at_contextual_kw_ident("enum")
}

// pub(crate) fn item_start_tokens() -> Vec<RecoveryToken> {
//     let mut tokens = vec![];
//     tokens.extend(ITEM_KW_START_LIST.iter().map(|it| it.clone().into()));
//     tokens.extend(function_modifier_tokens());
//     tokens.push("enum".into());
//     tokens
// }

// safe recovery set for `item_start()`
pub(crate) fn item_start_kws_only() -> RecoverySet {
    RecoverySet::from_ts(ITEM_KEYWORDS).with_another_rs(function_modifier_kws())
}

pub(crate) fn item_start_rec_set() -> RecoverySet {
    RecoverySet::new()
        .with_ts(ITEM_KEYWORDS)
        .with_kw("enum")
        .with_another_rs(function_modifier_recovery_set())
}

pub(crate) fn at_stmt_start() -> RecoverySet {
    RecoverySet::from_ts(STMT_FIRST)
}

const ITEM_KW_START_LIST: &[SyntaxKind] = &[
    T![struct],
    T![fun],
    T![const],
    T![spec],
    // T![schema],
    T![friend],
    T![use],
];

const ITEM_KEYWORDS: TokenSet = TokenSet::new(ITEM_KW_START_LIST);
