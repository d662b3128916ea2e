K='crates/syntax/src/parse/text_tree_sink.rs'; E='crates/syntax/src/parse/event.rs'; P='crates/syntax/src/parse/parser.rs'; T='crates/syntax/src/parse/text_token_source.rs'
B='bug'; G='ok'
I='S06'
run(I,[(K,'self.token_pos += n_tokens;','self.token_pos += 1;')],'pos1',B)
run(I,[(K,'self.eat_n_trivias(n_trivias - n_attached_trivias);','self.eat_n_trivias(n_trivias.saturating_sub(n_attached_trivias + 1));')],'lose',B)
run(I,[(K,'''        self.eat_n_trivias(n_attached_trivias);
    }''','''        if n_attached_trivias > 0 { self.eat_n_trivias(n_attached_trivias); }
    }''')],'guarded eat',G)
run(I,[(K,'''            State::PendingFinish => {
                self.eat_trivias();
                self.tree_builder.finish_node();''','''            State::PendingFinish => {
                self.tree_builder.finish_node();''')],'no trailing',B)
run(I,[(K,'''            State::PendingFinish => self.tree_builder.finish_node(),
            State::Normal => (),
        }
        self.eat_trivias();''','''            State::PendingFinish => self.tree_builder.finish_node(),
            State::Normal => (),
        }
        if n_tokens == 1 { self.eat_trivias(); }''')],'multi no trivia',B)
run(I,[(K,'''        self.text_pos += len;
        self.token_pos += n_tokens;''','''        self.token_pos += n_tokens;
        self.text_pos = range.end();''')],'end',G)
run(I,[(K,'''        let len = self.tokens[self.token_pos..self.token_pos + n_tokens]
            .iter()
            .map(|it| it.len)
            .sum::<TextSize>();''','''        let mut len = TextSize::from(0);
        for it in &self.tokens[self.token_pos..self.token_pos + n_tokens] {
            len += it.len;
        }''')],'loop sum',G)
run(I,[(E,'sink.error(msg)','if i > 0 { sink.error(msg) }')],'drop first err',B)
run(I,[(E,'forward_parents.drain(..).rev()','forward_parents.drain(..)')],'norev',B)
run(I,[(E,'if kind != TOMBSTONE {','if kind != TOMBSTONE && kind != ERROR {')],'error nodes',B)
run(I,[(E,'fp = match mem::replace(&mut events[idx], Event::tombstone()) {','fp = match mem::replace(&mut events[i], Event::tombstone()) {')],'idx i',B)
run(I,[(P,'for _ in 0..*n_raw_tokens {','for _ in 0..1 {')],'pop1',B)
run(I,[(P,'self.push_event(Event::Token { kind, n_raw_tokens });','self.push_event(Event::Token { kind, n_raw_tokens: n_raw_tokens.min(2) });')],'min2',B)
run(I,[(P,'''            for _ in idx..p.events.len() {
                p.pop_event();
            }''','''            for _ in idx + 1..p.events.len() {
                p.pop_event();
            }''')],'rollback leaves start',B)
run(I,[(P,'''            for _ in idx..p.events.len() {
                p.pop_event();
            }''','''            while p.events.len() > idx {
                p.pop_event();
            }''')],'rollback while',G)
run(I,[(P,'*forward_parent = Some(new_pos.pos - self.pos);','*forward_parent = Some(new_pos.pos - self.pos - 1);')],'fp-1',B)
run(I,[(P,'*forward_parent = Some(self.pos - m.pos);','*forward_parent = Some(self.pos);')],'ext',B)
run(I,[(P,'''        let kind = self.nth(0);
        if kind == EOF {
            return;
        }
        self.do_bump(kind, 1);''','''        let kind = self.current();
        if kind != EOF {
            self.do_bump(kind, 1);
        }''')],'bump_any inv',G)
run(I,[(T,'let pos = self.curr.1 - 1;','let pos = self.curr.1.saturating_sub(1);')],'pop sat',G)
run(I,[(T,'''        let pos = self.curr.1 - 1;
        self.curr = (token_at_pos(pos, &self.raw_tokens_with_offsets), pos);''','''        let pos = self.curr.1 - 1;
        self.curr = (token_at_pos(self.curr.1, &self.raw_tokens_with_offsets), pos);''')],'pop tok',B)
run(I,[(T,'''                    offset += token.len;
                    token_with_offset''','''                    if token_with_offset.is_some() { offset += token.len; }
                    token_with_offset''')],'off',B)
run(I,[(T,'''        if self.curr.0.kind == EOF {
            return;
        }
''','')],'bump past eof',G)
