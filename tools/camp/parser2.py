B='crates/syntax/src/parse/'
SK=B+'text_tree_sink.rs';TS=B+'text_token_source.rs';EV=B+'event.rs';TK=B+'token_set.rs';RS=B+'recovery_set.rs';LX=B+'lexer.rs'
C='S01 S02 S05 S06 S07 S09 S10'
LIST=[
 dict(l='sink: close_pending helper',k='ok',c=C,e=[(SK,'''        match mem::replace(&mut self.state, State::Normal) {
            State::PendingStart => unreachable!(),
            State::PendingFinish => self.tree_builder.finish_node(),
            State::Normal => (),
        }
        self.eat_trivias();
        let n_tokens = n_tokens as usize;''','''        self.close_pending();
        self.eat_trivias();
        let n_tokens = n_tokens as usize;'''),(SK,'''    /// Start new branch and make it current.''','''    fn close_pending(&mut self) {
        let prev = mem::replace(&mut self.state, State::Normal);
        if let State::PendingFinish = prev {
            self.tree_builder.finish_node();
        } else if let State::PendingStart = prev {
            unreachable!();
        }
    }

    /// Start new branch and make it current.''')]),
 dict(l='sink: len by loop',k='ok',c=C,e=[(SK,'''        let len = self.tokens[self.token_pos..self.token_pos + n_tokens]
            .iter()
            .map(|it| it.len)
            .sum::<TextSize>();''','''        let mut len = TextSize::new(0);
        for it in &self.tokens[self.token_pos..self.token_pos + n_tokens] {
            len += it.len;
        }''')]),
 dict(l='sink: eat_trivias loop match',k='ok',c=C,e=[(SK,'''        while let Some(&token) = self.tokens.get(self.token_pos) {
            if !token.kind.is_trivia() {
                break;
            }
            self.do_token(token.kind, token.len, 1);
        }''','''        loop {
            match self.tokens.get(self.token_pos).copied() {
                Some(token) if token.kind.is_trivia() => self.do_token(token.kind, token.len, 1),
                _ => break,
            }
        }''')]),
 dict(l='sink: do_token order',k='ok',c=C,e=[(SK,'''        let range = TextRange::at(self.text_pos, len);
        let text = &self.text[range];
        self.text_pos += len;
        self.token_pos += n_tokens;
        self.tree_builder.token(kind, text);''','''        let end = self.text_pos + len;
        let text = &self.text[TextRange::new(self.text_pos, end)];
        self.tree_builder.token(kind, text);
        self.token_pos += n_tokens;
        self.text_pos = end;''')]),
 dict(l='sink: finish if-let',k='ok',c=C,e=[(SK,'''        match mem::replace(&mut self.state, State::PendingFinish) {
            State::PendingStart => unreachable!(),
            State::PendingFinish => self.tree_builder.finish_node(),
            State::Normal => (),
        }
    }

    pub(crate) fn error''','''        let before = mem::replace(&mut self.state, State::PendingFinish);
        assert!(!matches!(before, State::PendingStart));
        if matches!(before, State::PendingFinish) {
            self.tree_builder.finish_node();
        }
    }

    pub(crate) fn error''')]),
 dict(l='sink: n_trivias position',k='ok',c=C,e=[(SK,'''        let n_trivias = self.tokens[self.token_pos..]
            .iter()
            .take_while(|it| it.kind.is_trivia())
            .count();''','''        let rest = &self.tokens[self.token_pos..];
        let n_trivias = rest
            .iter()
            .position(|it| !it.kind.is_trivia())
            .unwrap_or(rest.len());''')]),
 dict(l='source: filter loop',k='ok',c=C,e=[(TS,'''        let raw_tokens_with_offsets: Vec<_> = raw_tokens
            .iter()
            .filter_map({
                let mut offset = 0.into();
                move |token| {
                    // remove trivia from the token stream, preserving offsets
                    let token_with_offset = if token.kind.is_trivia() {
                        None
                    } else {
                        Some((*token, offset))
                    };
                    offset += token.len;
                    token_with_offset
                }
            })
            .collect();
''','''        let mut raw_tokens_with_offsets = Vec::with_capacity(raw_tokens.len());
        let mut offset = TextSize::new(0);
        for token in &raw_tokens {
            if !token.kind.is_trivia() {
                raw_tokens_with_offsets.push((*token, offset));
            }
            offset += token.len;
        }
''')]),
 dict(l='source: move_to helper',k='ok',c=C,e=[(TS,'''        let pos = self.curr.1 + 1;
        self.curr = (token_at_pos(pos, &self.raw_tokens_with_offsets), pos);
    }
''','''        self.move_to(self.curr.1 + 1);
    }

    fn move_to(&mut self, pos: usize) {
        self.curr = (token_at_pos(pos, &self.raw_tokens_with_offsets), pos);
    }
'''),(TS,'''        let pos = self.curr.1 - 1;
        self.curr = (token_at_pos(pos, &self.raw_tokens_with_offsets), pos);''','''        self.move_to(self.curr.1 - 1);''')]),
 dict(l='source: token_at_pos let-else',k='ok',c=C,e=[(TS,'''    let (kind, is_jointed_to_next) = match tokens_with_offsets.get(pos) {
        Some((raw_token, offset)) => (
            raw_token.kind,
            tokens_with_offsets
                .get(pos + 1)
                .map_or(false, |(_, next_offset)| offset + raw_token.len == *next_offset),
        ),
        None => (EOF, false),
    };
    Token { kind, is_jointed_to_next }''','''    let Some((raw_token, offset)) = tokens_with_offsets.get(pos) else {
        return Token { kind: EOF, is_jointed_to_next: false };
    };
    let end = *offset + raw_token.len;
    let is_jointed_to_next = match tokens_with_offsets.get(pos + 1) {
        Some((_, next_offset)) => end == *next_offset,
        None => false,
    };
    Token { kind: raw_token.kind, is_jointed_to_next }''')]),
 dict(l='source: is_some_and kw',k='ok',c=C,e=[(TS,'''        self.raw_tokens_with_offsets
            .get(self.curr.1)
            .map_or(false, |(token, offset)| {
                &self.text[TextRange::at(*offset, token.len)] == kw
            })''','''        self.curr.1 < self.raw_tokens_with_offsets.len() && self.nth_text(0) == kw''')]),
 dict(l='event: process chain helper',k='ok',c=C,e=[(EV,'''                forward_parents.push(kind);
                let mut idx = i;
                let mut fp = forward_parent;
                while let Some(fwd) = fp {
                    idx += fwd as usize;
                    // append `A`'s forward_parent `B`
                    fp = match mem::replace(&mut events[idx], Event::tombstone()) {
                        Event::Start { kind, forward_parent } => {
                            forward_parents.push(kind);
                            forward_parent
                        }
                        _ => unreachable!(),
                    };
                    // append `B`'s forward_parent `C` in the next stage.
                }

                for kind in forward_parents.drain(..).rev() {
                    if kind != TOMBSTONE {
                        sink.start_node(kind);
                    }
                }''','''                forward_parents.push(kind);
                let mut idx = i;
                let mut next = forward_parent;
                loop {
                    let Some(fwd) = next else { break };
                    idx += fwd as usize;
                    let event = mem::replace(&mut events[idx], Event::tombstone());
                    let Event::Start { kind, forward_parent } = event else {
                        unreachable!();
                    };
                    forward_parents.push(kind);
                    next = forward_parent;
                }

                while let Some(kind) = forward_parents.pop() {
                    if kind == TOMBSTONE {
                        continue;
                    }
                    sink.start_node(kind);
                }''')]),
 dict(l='event: take',k='ok',c=C,e=[(EV,'''        match mem::replace(&mut events[i], Event::tombstone()) {
            Event::Start { kind, forward_parent } => {
                // For''','''        let event = mem::replace(&mut events[i], Event::tombstone());
        match event {
            Event::Start { kind, forward_parent } => {
                // For'''),(EV,'''            Event::Finish => sink.finish_node(),
            Event::Token { kind, n_raw_tokens } => {
                sink.token(kind, n_raw_tokens);
            }
            Event::Error { msg } => sink.error(msg),
        }
    }
}''','''            Event::Token { kind, n_raw_tokens } => sink.token(kind, n_raw_tokens),
            Event::Error { msg } => sink.error(msg),
            Event::Finish => {
                sink.finish_node();
            }
        }
    }
}''')]),
 dict(l='tokset new for-less',k='ok',c=C,e=[(TK,'''        let mut res = 0u128;
        let mut i = 0;
        while i < kinds.len() {
            res |= mask(kinds[i]);
            i += 1;
        }
        TokenSet(res)''','''        let mut bits = 0u128;
        let mut left = kinds.len();
        while left > 0 {
            left -= 1;
            bits = bits | mask(kinds[left]);
        }
        TokenSet(bits)''')]),
 dict(l='tokset contains via mask var',k='ok',c=C,e=[(TK,'''        self.0 & mask(kind) != 0''','''        let bit = mask(kind);
        (self.0 & bit) == bit'''),(TK,'''        TokenSet(self.0 & !other.0)''','''        TokenSet(self.0 ^ (self.0 & other.0))''')]),
 dict(l='lexer while',k='ok',c=C,e=[(LX,'''    loop {
        lex_tokens.advance();
        if lex_tokens.peek() == Tok::EOF {
            break;
        }

        let syntax_kind = aptos_token_kind_to_syntax_kind(lex_tokens.peek(), lex_tokens.content());
        tokens.push(RawToken {
            kind: syntax_kind,
            len: TextSize::new(lex_tokens.content().len() as u32),
        });
    }''','''    lex_tokens.advance();
    while lex_tokens.peek() != Tok::EOF {
        let content = lex_tokens.content();
        let kind = aptos_token_kind_to_syntax_kind(lex_tokens.peek(), content);
        let len = TextSize::of(content);
        tokens.push(RawToken { kind, len });
        lex_tokens.advance();
    }''')]),
 # bugs
 dict(l='BUG finish drops trailing trivia',k='bug',c='S06',e=[(SK,'''            State::PendingFinish => {
                self.eat_trivias();
                self.tree_builder.finish_node();''','''            State::PendingFinish => {
                self.tree_builder.finish_node();''')]),
 dict(l='BUG attached count off',k='bug',c='S06',e=[(SK,'''        self.eat_n_trivias(n_trivias - n_attached_trivias);
        self.tree_builder.start_node(kind);
        self.eat_n_trivias(n_attached_trivias);''','''        self.eat_n_trivias(n_trivias - n_attached_trivias);
        self.tree_builder.start_node(kind);''')]),
 dict(l='BUG jointed whitespace',k='bug',c='S09 S06',e=[(TS,'''offset + raw_token.len == *next_offset),''','''offset + raw_token.len <= *next_offset),''')]),
 dict(l='BUG fp not reset',k='bug',c='S06',e=[(EV,'''                    fp = match mem::replace(&mut events[idx], Event::tombstone()) {''','''                    fp = match events[idx].clone() {''')]),
 dict(l='BUG order',k='bug',c='S06',e=[(EV,'forward_parents.drain(..).rev()','forward_parents.drain(..)')]),
 dict(l='BUG comment kind bytes len',k='bug',c='S05 S06',e=[(LX,'lex_tokens.content().len() as u32','lex_tokens.content().trim_end().len() as u32')]),
]
