G='crates/syntax/src/parse/grammar/'
P='crates/syntax/src/parse/'
SEEDS=[
 dict(id='s01-use-alias-early-return', property='S01',
  edits=[(G+'items/use_item.rs','''    let m = p.start();
    p.bump(T![as]);
    name(p);
    m.complete(p, USE_ALIAS);''','''    let m = p.start();
    p.bump(T![as]);
    if p.at(T!['_']) {
        // `use 0x1::m as _;` is not supported
        p.error_and_recover("expected identifier", TokenSet::EMPTY);
        return;
    }
    name(p);
    m.complete(p, USE_ALIAS);''')],
  needs='a use item whose alias is the placeholder `_`', breaks='the alias node is opened and dropped without being closed: the parser crashes on that file',
  demo='parser', cases=['module 0x1::m { use 0x1::a as _; }','module 0x1::m { use 0x1::a as b; }']),
 dict(id='s02-range-pat-joint', property='S02',
  edits=[(G+'patterns.rs','''        T![int_number] if p.nth_at(1, T![::]) => path_pat(p),
        T![ident] => match''','''        T![int_number] if p.nth_at(1, T![::]) => path_pat(p),
        T![-] => {
            let lit = literal_pat(p);
            let m = lit.precede(p);
            p.bump(T![..]);
            literal_pat(p);
            m.complete(p, RANGE_PAT)
        }
        T![ident] => match''')],
  needs='a match arm with a negative literal that is not the start of a range', breaks='the range operator is consumed although nothing says it follows',
  demo='parser', cases=['module 0x1::m { fun f() { match (x) { -1 => 2, _ => 3 } } }']),
 dict(id='s03-ability-list', property='S03',
  edits=[(G+'type_params.rs','''    while ability(p) {
        if !p.eat(T![+]) {
            break;
        }
    }''','''    loop {
        let has_ability = ability(p);
        if !has_ability && !p.at(T![,]) {
            break;
        }
        p.eat(T![+]);
    }''')],
  needs='a lambda type with abilities that is followed by another parameter', breaks='the loop goes round on the comma without consuming it: the editor hangs',
  demo='parser', cases=['module 0x1::m { fun f(g: |u8| has copy, x: u8) {} }','module 0x1::m { struct S<T: copy + drop> has copy { x: u8 } }']),
 dict(id='s04-stmt-kind-leak', property='S04',
  edits=[(P+'parser.rs','''        let previous = self.stmt_kind.replace(stmt_kind);
        let result = f(self);
        self.stmt_kind = previous;
        result''','''        let previous = self.stmt_kind.replace(stmt_kind);
        let result = f(self);
        if !self.at(EOF) && previous.is_some() {
            self.stmt_kind = previous;
        }
        result''')],
  needs='a spec block followed by an ordinary function', breaks='after the first spec block the rest of the file is parsed as specification statements',
  demo='parser', tree=True, cases=['module 0x1::m { spec module { } fun f() { assume = 1; let x = 2; include; pragma; } }']),
 dict(id='s04-recovery-question-mark', property='S04',
  edits=[(P+'parser.rs','''        self.recovery_set_stack.push(new_rec_set);
        let res = f(self);
        self.recovery_set_stack.pop();
        res
    }

    pub(crate) fn with_recovery_token<''','''        self.recovery_set_stack.push(new_rec_set);
        let before = self.pos();
        let res = f(self);
        if self.pos() != before {
            self.recovery_set_stack.pop();
        }
        res
    }

    pub(crate) fn with_recovery_token<''')],
  needs='a construct parsed under a recovery token that turns out to be empty', breaks='the recovery token of the empty construct stays active for the rest of the file',
  demo='parser', tree=True, cases=['module 0x1::m { fun f<>() {} fun g() { let x = (a > b > ; y > 1); } }','module 0x1::m { struct S<> { } fun f<>() { x.. } fun h(a: , b: u8) { f(a, >, b) } }']),
]
