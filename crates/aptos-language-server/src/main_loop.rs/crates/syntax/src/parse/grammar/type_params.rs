// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::SyntaxKind::*;
use crate::parse::event::Event::Token;
use crate::parse::grammar::attributes::ATTRIBUTE_FIRST;
use crate::parse::grammar::utils::delimited_with_recovery;
use crate::parse::grammar::{ability, name, name_or_recover, patterns, types};
use crate::parse::parser::Parser;
use crate::parse::token_set::TokenSet;
use crate::{T, ts};

pub(super) fn opt_type_param_list(p: &mut Parser) {
    if p.at(T![<]) {
        type_param_list(p);
    }
}

fn type_param_list(p: &mut Parser) {
    let m = p.start();
    p.bump(T![<]);

    p.with_recovery_token(T![>], |p| {
        delimited_with_recovery(p, type_param, T![,], "expected type parameter", Some(T![>]))
    });

    p.expect(T![>]);
    m.complete(p, TYPE_PARAM_LIST);
}

fn type_param(p: &mut Parser) -> bool {
    let m = p.start();

    let has_phantom = p.at_contextual_kw_ident("phantom");
    if has_phantom {
        p.bump_remap(T![phantom]);
    }
    let has_name = name(p);
    if !has_name && has_phantom {
        m.complete(p, TYPE_PARAM);
        return false;
    }
    if has_name {
        if p.at(T![:]) {
            colon_ability_bound_list(p);
        }
    }

    if has_name || has_phantom {
        m.complete(p, TYPE_PARAM);
        true
    } else {
        m.abandon(p);
        false
    }
}

pub(crate) fn colon_ability_bound_list(p: &mut Parser) {
    assert!(p.at(T![:]));
    let m = p.start();
    p.bump(T![:]);
    delimited_with_recovery(p, ability, T![+], "expected ability", None);
    m.complete(p, ABILITY_BOUND_LIST);
}

pub(crate) fn ability_bound_list(p: &mut Parser) {
    let m = p.start();
    while ability(p) {
        if !p.eat(T![+]) {
            break;
        }
    }
    m.complete(p, ABILITY_BOUND_LIST);
}
