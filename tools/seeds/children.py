G='crates/syntax/src/parse/grammar/'
SEEDS=[
 dict(id='s10-group-without-path', property='S10',
  edits=[(G+'items/use_item.rs','''        p.error_and_recover(message, TokenSet::EMPTY);
        return true;
    }
    let m''','''        if is_top_level && p.at(T!['{']) {
            p.error(message);
            use_group(p);
            return true;
        }
        p.error_and_recover(message, TokenSet::EMPTY);
        return true;
    }
    let m''')],
  needs='a `use` whose group is written before the address: `use {a, b};`', breaks='the group has no use speck above it: every request that resolves one of its names panics',
  demo='parser', tree=True, cases=['module 0x1::m { use {a, b}; }','module 0x1::m { use 0x1::m::{a, b}; }']),
 dict(id='s10-method-call-before-name', property='S10',
  edits=[(G+'expressions.rs','''        _ => {
            p.error("expected field name or number");
        }
    }

    m.complete(p, DOT_EXPR)''','''        T!['('] => {
            p.error("expected method name");
            value_arg_list(p);
            return m.complete(p, METHOD_CALL_EXPR);
        }
        _ => {
            p.error("expected field name or number");
        }
    }

    m.complete(p, DOT_EXPR)''')],
  needs='a call written before the name of the method: `a.(1)`', breaks='a method call node has no name: type inference of the function panics',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { a.(1); } }','module 0x1::m { fun f() { a.b(1); } }']),
 dict(id='s10-for-without-body', property='S10',
  edits=[(G+'expressions/atom.rs','''    for_condition(p);
    block_or_inline_expr(p);
    m.complete(p, FOR_EXPR)''','''    for_condition(p);
    if p.at_ts(T!['}'] | T![;]) {
        p.error("expected block");
        return m.complete(p, ERROR);
    }
    block_or_inline_expr(p);
    m.complete(p, FOR_EXPR)''')],
  needs='a `for` header that is typed before its body', breaks='the condition sits under an error node: the loop variable has no loop and asking for it panics',
  demo='parser', tree=True, cases=['module 0x1::m { fun f() { for (i in 0..2) } }','module 0x1::m { fun f() { for (i in 0..2) { i; } } }']),
]
