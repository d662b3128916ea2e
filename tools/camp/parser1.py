P='crates/syntax/src/parse/'; PP=P+'parser.rs'; G=P+'grammar/'
LIST=[
 dict(l='with_recovery helper', k='ok', e=[(PP,'''        self.recovery_set_stack
            .push(self.outer_recovery_set().with_another_rs(recovery_set));
        let res = f(self);
        self.recovery_set_stack.pop();
        res
    }

    pub(crate) fn reset_recovery''','''        let merged = self.outer_recovery_set().with_another_rs(recovery_set);
        self.in_recovery_set(merged, f)
    }

    fn in_recovery_set<T>(&mut self, set: RecoverySet, f: impl FnOnce(&mut Parser) -> T) -> T {
        self.recovery_set_stack.push(set);
        let res = f(self);
        self.recovery_set_stack.pop();
        res
    }

    pub(crate) fn reset_recovery''')]),
 dict(l='error_and_recover loop', k='ok', e=[(PP,'''        while !self.at(EOF) && !rec_set.contains_current(self) {
            self.bump_any();
        }''','''        loop {
            if self.at(EOF) || rec_set.contains_current(self) {
                break;
            }
            self.bump_any();
        }''')]),
 dict(l='eat via composite_len', k='ok', e=[(PP,'''        let n_raw_tokens = match kind {
            // T![-=]''','''        let n_raw_tokens = Self::n_raw_tokens(kind);
        self.do_bump(kind, n_raw_tokens);
        true
    }

    fn n_raw_tokens(kind: SyntaxKind) -> u8 {
        match kind {
            // T![-=]'''),(PP,'''            T![<==>] => 2,
            _ => 1,
        };
        self.do_bump(kind, n_raw_tokens);
        true
    }''','''            T![<==>] => 2,
            _ => 1,
        }
    }''')]),
 dict(l='composite2 one expr', k='ok', e=[(PP,'''        if t1.kind != k1 || !t1.is_jointed_to_next {
            return false;
        }
        let t2 = self.token_source.lookahead_nth(n + 1);
        t2.kind == k2
    }''','''        t1.kind == k1 && t1.is_jointed_to_next && self.token_source.lookahead_nth(n + 1).kind == k2
    }''')]),
 dict(l='complete let-else', k='ok', e=[(PP,'''        match &mut p.events[idx] {
            Event::Start { kind: slot, .. } => {
                *slot = kind;
            }
            _ => unreachable!(),
        }
        p.push_event(Event::Finish);''','''        let Event::Start { kind: slot, .. } = &mut p.events[idx] else {
            unreachable!()
        };
        *slot = kind;
        p.push_event(Event::Finish);''')]),
 dict(l='abandon helper', k='ok', e=[(PP,'''        if idx == p.events.len() - 1 {
            match p.events.pop() {
                Some(Event::Start {
                    kind: TOMBSTONE,
                    forward_parent: None,
                }) => (),
                _ => unreachable!(),
            }
        }
    }

    /// Abandons the syntax tree node. All its children events are dropped and position restored.
    pub(crate) fn abandon_with_rollback(mut self, p: &mut Parser) {
        self.bomb.defuse();
        let idx = self.pos as usize;
        if idx == p.events.len() - 1 {
            match p.events.pop() {
                Some(Event::Start {
                    kind: TOMBSTONE,
                    forward_parent: None,
                }) => (),
                _ => unreachable!(),
            }
        } else {''','''        if idx == p.events.len() - 1 {
            p.pop_tombstone();
        }
    }

    /// Abandons the syntax tree node. All its children events are dropped and position restored.
    pub(crate) fn abandon_with_rollback(mut self, p: &mut Parser) {
        self.bomb.defuse();
        let idx = self.pos as usize;
        if idx == p.events.len() - 1 {
            p.pop_tombstone();
        } else {'''),(PP,'''    fn pop_event(&mut self)''','''    fn pop_tombstone(&mut self) {
        match self.events.pop() {
            Some(Event::Start {
                kind: TOMBSTONE,
                forward_parent: None,
            }) => (),
            _ => unreachable!(),
        }
    }

    fn pop_event(&mut self)''')]),
 dict(l='rollback while', k='ok', e=[(PP,'''            for _ in idx..p.events.len() {
                p.pop_event();
            }''','''            while p.events.len() > idx {
                p.pop_event();
            }''')]),
 dict(l='pop_event nested', k='ok', e=[(PP,'''        let event = self.events.pop();
        if let Some(Event::Token { kind: _, n_raw_tokens }) = &event {
            for _ in 0..*n_raw_tokens {
                self.token_source.pop_position();
            }
        }
        event''','''        let event = self.events.pop()?;
        match &event {
            Event::Token { n_raw_tokens, .. } => {
                let n = *n_raw_tokens;
                for _ in 0..n {
                    self.token_source.pop_position();
                }
            }
            _ => (),
        }
        Some(event)''')]),
 dict(l='bump_any early', k='ok', e=[(PP,'''        let kind = self.nth(0);
        if kind == EOF {
            return;
        }
        self.do_bump(kind, 1);''','''        let kind = self.current();
        if kind != EOF {
            self.do_bump(kind, 1);
        }''')]),
 dict(l='merged_recovery fold', k='ok', e=[(PP,'''        let mut new_rs = RecoverySet::new();
        for rs in self.recovery_set_stack.clone() {
            new_rs = new_rs.with_another_rs(rs);
        }
        new_rs''','''        self.recovery_set_stack
            .iter()
            .cloned()
            .fold(RecoverySet::new(), |acc, rs| acc.with_another_rs(rs))''')]),
 dict(l='delimited: can_recover_at', k='ok', e=[(G+'utils.rs','''        let mut recover_set = TokenSet::new(&[delimiter]);
        if let Some(list_end) = list_end {
            // can't recover on pipe
            if list_end != T![|] {
                recover_set = recover_set | list_end;
            }
        }
        let at_element''','''        let mut recover_set = TokenSet::new(&[delimiter]);
        match list_end {
            Some(list_end) if list_end != T![|] => recover_set = recover_set | list_end,
            _ => (),
        }
        let at_element''')]),
 dict(l='delimited: else', k='ok', e=[(G+'utils.rs','''        if at_element {
            is_empty = false;
        }
        if !at_element {''','''        if at_element {
            is_empty = false;
        } else {''')]),
 dict(l='delimited: trailing comma merged', k='ok', e=[(G+'utils.rs','''        let is_delim = p.expect(delimiter);
        if is_delim {
            if delimiter == T![,] && modified_recovery_set.contains_current(p) {
                // trailing comma
                break;
            }
        }
''','''        let is_delim = p.expect(delimiter);
        let trailing_comma = is_delim && delimiter == T![,] && modified_recovery_set.contains_current(p);
        if trailing_comma {
            break;
        }
''')]),
 dict(l='iterate: loop with guards', k='ok', e=[(PP,'''            if matches!(cf, ControlFlow::Break(_)) {
                break;
            }
            let outer_rec = self.outer_recovery_set();
            if self.should_stop(&outer_rec) {
                break;
            }''','''            let is_break = cf.is_break();
            if is_break || self.should_stop(&self.outer_recovery_set()) {
                break;
            }''')]),
 dict(l='postfix_dot: if chain', k='ok', e=[(G+'expressions.rs','''                    let is_error_in_type_args = !type_args::opt_type_arg_list_for_expr(p, true);
                    if is_error_in_type_args {
                        // cannot be a method
                        break 'method_call;
                    }
                    if !p.at(T!['(']) {
                        // cannot be a method
                        break 'method_call;
                    }
                    value_arg_list(p);
                    return m.complete(p, METHOD_CALL_EXPR);''','''                    if type_args::opt_type_arg_list_for_expr(p, true) && p.at(T!['(']) {
                        value_arg_list(p);
                        return m.complete(p, METHOD_CALL_EXPR);
                    }
                    // cannot be a method
                    break 'method_call;''')]),
 dict(l='for_condition helper', k='ok', e=[(G+'expressions/atom.rs','''    if p.at(IDENT) && p.at_contextual_kw("in") {
        p.bump_remap(T![in]);
        expr(p);
    } else {
        p.error_and_recover("expected 'in'", EXPR_FIRST | T![')']);
    }
    opt_spec_block_expr(p);''','''    for_range(p);
    opt_spec_block_expr(p);'''),(G+'expressions/atom.rs','''fn while_expr(''','''fn for_range(p: &mut Parser) {
    if !p.at_contextual_kw_ident("in") {
        p.error_and_recover("expected 'in'", EXPR_FIRST | T![')']);
        return;
    }
    p.bump_remap(T![in]);
    expr(p);
}

fn while_expr(''')]),
 dict(l='match_expr if at', k='ok', e=[(G+'expressions/atom.rs','''    if !p.at(T!['{']) {
        // this is a match() function
        m.abandon_with_rollback(p);
        return None;
    }

    match_arm_list(p);
    Some(m.complete(p, MATCH_EXPR))''','''    if p.at(T!['{']) {
        match_arm_list(p);
        return Some(m.complete(p, MATCH_EXPR));
    }
    // this is a match() function
    m.abandon_with_rollback(p);
    None''')]),
 dict(l='use_speck match to if', k='ok', e=[(G+'items/use_item.rs','''    match p.current() {
        T![as] => use_alias(p),
        T![::] => {
            p.bump(T![::]);
            match p.current() {
                T!['{'] => use_group(p),
                _ => p.error("expected `{` or identifier"),
            }
        }
        _ => (),
    }''','''    if p.at(T![as]) {
        use_alias(p);
    } else if p.eat(T![::]) {
        if p.at(T!['{']) {
            use_group(p);
        } else {
            p.error("expected `{` or identifier");
        }
    }''')]),
 dict(l='lambda_type has', k='ok', e=[(G+'types.rs','''    if p.at_contextual_kw_ident("has") {
        let m = p.start();
        p.bump_remap(T![has]);
        type_params::ability_bound_list(p);
        m.complete(p, LAMBDA_TYPE_ABILITY_LIST);
    }
    m.complete(p, LAMBDA_TYPE);''','''    opt_lambda_type_abilities(p);
    m.complete(p, LAMBDA_TYPE);'''),(G+'types.rs','''fn paren_or_tuple_or_unit_type(''','''fn opt_lambda_type_abilities(p: &mut Parser) {
    if !p.at_contextual_kw_ident("has") {
        return;
    }
    let m = p.start();
    p.bump_remap(T![has]);
    type_params::ability_bound_list(p);
    m.complete(p, LAMBDA_TYPE_ABILITY_LIST);
}

fn paren_or_tuple_or_unit_type(''')]),
 dict(l='enum_variant early return', k='ok', e=[(G+'items/adt.rs','''    if p.at(IDENT) {
        // name(p);
        name_or_recover(p, TokenSet::EMPTY.into());
        match p.current() {
            T!['{'] => {
                curly_braces = true;
                named_field_list(p)
            }
            T!['('] => tuple_field_list(p),
            _ => (),
        }
        m.complete(p, VARIANT);
    } else {
        m.abandon(p);
        p.error_and_bump("expected enum variant");
    }
    curly_braces''','''    if !p.at(IDENT) {
        m.abandon(p);
        p.error_and_bump("expected enum variant");
        return curly_braces;
    }
    name_or_recover(p, TokenSet::EMPTY.into());
    if p.at(T!['{']) {
        curly_braces = true;
        named_field_list(p);
    } else if p.at(T!['(']) {
        tuple_field_list(p);
    }
    m.complete(p, VARIANT);
    curly_braces''')]),
]
