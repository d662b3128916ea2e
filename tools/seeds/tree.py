G='crates/syntax/src/parse/grammar/'
P='crates/syntax/src/parse/'
SEEDS=[
 dict(id='s06-rollback-composite', property='S06',
  edits=[(P+'parser.rs','''            for _ in 0..*n_raw_tokens {
                self.token_source.pop_position();
            }''','''            if *n_raw_tokens > 0 {
                self.token_source.pop_position();
            }''')],
  needs='a speculative parse that consumed an operator glued of several tokens and is rolled back', breaks='the cursor is left in the middle of the operator: the text before it is lost from the tree',
  demo='parser', tree=True, cases=['module 0x1::m { spec schema S { include A && B; } }','module 0x1::m { spec schema S { include A; } }']),
 dict(id='s06-comment-at-end', property='S06',
  edits=[(P+'text_tree_sink.rs','''            State::PendingFinish => {
                self.eat_trivias();
                self.tree_builder.finish_node();
            }''','''            State::PendingFinish => {
                // only the final newline can be left here
                let n_left = self.tokens[self.token_pos..]
                    .iter()
                    .take_while(|it| it.kind == WHITESPACE)
                    .count();
                self.eat_n_trivias(n_left);
                self.tree_builder.finish_node();
            }''')],
  needs='a file whose last line is a comment', breaks='the comment is not in the tree: the tree no longer covers the text, every later edit is misplaced',
  demo='parser', tree=True, cases=['module 0x1::m { }\n// end\n','module 0x1::m { }\n']),
 dict(id='s06-stale-token-after-rollback', property='S06',
  edits=[(P+'text_token_source.rs','''        let pos = self.curr.1 - 1;
        self.curr = (token_at_pos(pos, &self.raw_tokens_with_offsets), pos);''','''        self.curr.1 -= 1;''')],
  needs='a speculative parse that reached the end of the file and is rolled back', breaks='the cursor still believes to be at the end and no longer moves',
  demo='parser', tree=True, cases=['module 0x1::m { spec schema S { include a','module 0x1::m { spec schema S { include a; } }']),
 dict(id='s07-recovery-names-replaced', property='S07',
  edits=[(P+'recovery_set.rs','''        self.keywords.extend(other.keywords);
        self''','''        if self.keywords.is_empty() {
            self.keywords = other.keywords;
        }
        self''')],
  needs='an error inside two nested constructs that each stop at names', breaks='the inner construct no longer stops at its own names: the error swallows what follows',
  demo='parser', tree=True, cases=['module 0x1::m { lemma l() { ensures true; } proof { forall x: u8 + apply l(x); } }','spec module 0x1::m { lemma l(): bool { } spec f { } proof { forall x: % apply m(); assert 1; } }','module 0x1::m { spec f { } proof { forall x + apply l(x); } fun g() {} }','module 0x1::m { spec module { lemma a(x: u8) { ensures x; } proof { forall x: ! apply a(x); } } }','module 0x1::m { struct S { a: u8 } % enum E { A } spec module { invariant forall i in 1 where: true; } }','module 0x1::m { spec fun f() { forall x: u8 + where x > 1: true } enum E { A } }','module 0x1::m { fun f() proof { * apply a(); } lemma % apply }','script { } % enum lemma module 0x1::m {}']),
 dict(id='s07-sub-toggles', property='S07',
  edits=[(P+'token_set.rs','TokenSet(self.0 & !other.0)','TokenSet(self.0 ^ other.0)')],
  needs='a kind taken out of a recovery set that does not hold it', breaks='the kind is put in instead: error recovery stops at it',
  demo='parser', tree=True, cases=['module 0x1::m { fun f(x: u8, % , y: u8): u8 { 1 } fun g<T: +, U>() {} }','module 0x1::m { struct S { a: u8 % , b: u8 } const C: u8 = ; fun g() { f(1 % 2, 3); let (a, *, b) = 1; } }','module 0x1::m { use 0x1::m::{a, % , b}; use 0x1::m::{c % d, e}; }','module 0x1::m { fun f() { forall x: u8 %, y: u8: true; vector[1 % , 2]; x<u8 %, u8>(); } }']),
 dict(id='s08-implication-right-assoc', property='S08',
  edits=[(G+'expressions.rs','let cm = expr_bp(p, Restrictions { prefer_stmt: false, ..r }, op_bp + 1);','let rhs_bp = if op == T![==>] { op_bp } else { op_bp + 1 };\n        let cm = expr_bp(p, Restrictions { prefer_stmt: false, ..r }, rhs_bp);')],
  needs='two implications in a row', breaks='they group to the right',
  demo='parser', tree=True, cases=['module 0x1::m { spec module { invariant a ==> b ==> c; } }']),
 dict(id='s08-borrow-binds-weaker', property='S08',
  edits=[(G+'expressions.rs','    expr_bp(p, r, 255);','    // `&` reaches over the following arithmetic\n    expr_bp(p, r, if kind == BORROW_EXPR { 12 } else { 255 });')],
  needs='a borrow followed by a multiplication', breaks='`&a * b` is read as `&(a * b)`',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { let x = *&a * b; } }']),
 dict(id='s08-range-level', property='S08',
  edits=[(G+'expressions.rs','''        T![<] if p.at(T![<=])  => (6,  T![<=]),
        T![<] if p.at(T![<<])  => (10,  T![<<]),
        T![<]                 => (6,  T![<]),''','''        T![<] if p.at(T![<=])  => (6,  T![<=]),
        T![<]                 => {
            if p.nth_at(1, T![<]) && !p.nth_at(2, T![<]) {
                (10, T![<<])
            } else {
                (6,  T![<])
            }
        }''')],
  needs='`<` and `<` separated by a space', breaks='two comparisons are taken for a shift and the parser crashes on it',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { a < < b; a << b; } }']),
 dict(id='s09-shr-eq-two-tokens', property='S09',
  edits=[(P+'parser.rs','/*T![...] | T![..=] |*/ T![<<=] | T![>>=] => 3,','/*T![...] | T![..=] |*/ T![<<=] => 3,\n            T![>>=] => 2,')],
  needs='a `>>=` assignment', breaks='the operator is glued of two of its three tokens: the `=` becomes a token of its own',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { a >>= 1; } }']),
 dict(id='s09-third-token-apart', property='S09',
  edits=[(P+'parser.rs','''        if t2.kind != k2 || !t2.is_jointed_to_next {
            return false;
        }
        let t3 = self.token_source.lookahead_nth(n + 2);
        t3.kind == k3
''','''        if t2.kind != k2 {
            return false;
        }
        let t3 = self.token_source.lookahead_nth(n + 2);
        t3.kind == k3
''')],
  needs='a shift followed by a space and `=`', breaks='`<< =` is glued into one token, with the space inside',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { a << = 1; } }','module 0x1::m { fun f() { a <<= 1; a << 1; } }']),
 dict(id='s09-expect-silent-at-end', property='S09',
  edits=[(P+'parser.rs','''        if self.eat(kind) {
            return true;
        }
        self.push_error(error_message);
        false''','''        if self.eat(kind) {
            return true;
        }
        if kind != T!['}'] || !self.at(EOF) {
            self.push_error(error_message);
        }
        false''')],
  needs='a file that ends inside a block', breaks='the missing closing brace is not reported',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { } ','module 0x1::m { fun f() { ']),
]
