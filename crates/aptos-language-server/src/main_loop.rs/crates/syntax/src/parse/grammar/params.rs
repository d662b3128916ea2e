// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use super::*;
use crate::T;
use crate::parse::grammar::utils::delimited_with_recovery;

pub(crate) fn fun_param_list(p: &mut Parser) {
    let m = p.start();
    p.bump(T!['(']);
    p.with_recovery_token(T![')'], |p| {
        delimited_with_recovery(p, param, T![,], "expected value parameter", Some(T![')']))
    });
    p.expect(T![')']);
    m.complete(p, PARAM_LIST);
}

fn param(p: &mut Parser) -> bool {
    let m = p.start();
    let is_ident = patterns::ident_pat_or_recover(p);
    if is_ident {
        if p.expect_with_error(T![:], "missing type annotation") {
            p.with_recovery_token(T![,], types::type_);
        }
    }
    m.complete(p, PARAM);
    true
}

const PARAM_FIRST: TokenSet = ts!(IDENT, T!['_']);
const PARAM_RECOVERY_SET: TokenSet = ts!(T![')'], T![,]);
