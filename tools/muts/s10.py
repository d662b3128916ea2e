G='crates/syntax/src/parse/grammar/'; N='crates/syntax/src/ast/generated/nodes.rs'; A='crates/syntax/src/ast/node_ext/'
B='bug'; K='ok'
run('S10',[(G+'items/adt.rs','''        if !has_name {
            m.abandon(p);
            return false;
        }

        let at_colon''','''        if !has_name && !p.at(T![:]) {
            m.abandon(p);
            return false;
        }

        let at_colon''')],'field without name',B)
run('S10',[(G+'items/item_spec.rs','''    let res = name_ref_or_recover(p);
    if res {
        ref_m''','''    let res = name_ref_or_recover(p) || p.at(T![<]);
    if res {
        ref_m''')],'item_spec_ref unused name (no assumption?)',None)
run('S10',[(G+'items/item_spec.rs','''            name_ref(p);
            if p.at(T![:]) {
                p.bump(T![:]);''','''            p.bump(IDENT);
            if p.at(T![:]) {
                p.bump(T![:]);''')],'spec type param w/o name_ref',None)
run('S10',[(G+'expressions.rs','''        INT_NUMBER => {
            let m = p.start();
            p.bump_any();
            m.complete(p, NAME_REF);
        }
        _ => {''','''        INT_NUMBER => {
            let m = p.start();
            p.bump_any();
            m.complete(p, NAME_REF);
        }
        T!['('] => {
            p.error("expected method name");
            value_arg_list(p);
            return m.complete(p, METHOD_CALL_EXPR);
        }
        _ => {''')],'method call without name',B)
run('S10',[(G+'items/adt.rs','''    attributes::attrs(p);
    if p.at(IDENT) {
        // name(p);
        name_or_recover(p, TokenSet::EMPTY.into());
        match p.current() {
            T!['{'] => {
                curly''','''    attributes::attrs(p);
    if p.at(IDENT) {
        // name(p);
        name_or_recover(p, TokenSet::EMPTY.into());
        match p.current() {
            T!['{'] if p.nth_at(1, T!['}']) => blocks::block_expr(p),
            T!['{'] => {
                curly''')],'benign-ish variant block',None)
run('S10',[(G+'expressions/atom.rs','''    p.bump_remap(T![for]);
    for_condition(p);
    block_or_inline_expr(p);
    m.complete(p, FOR_EXPR)''','''    p.bump_remap(T![for]);
    for_condition(p);
    if !p.at(T!['{']) {
        return m.complete(p, LOOP_EXPR);
    }
    block_or_inline_expr(p);
    m.complete(p, FOR_EXPR)''')],'for_condition in loop',B)
run('S10',[(G+'items/use_item.rs','''                T!['{'] => use_group(p),
                _ => p''','''                T!['{'] => {
                    m.complete(p, USE_SPECK);
                    use_group(p);
                    return true;
                }
                _ => p''')],'use group outside of speck',B)
run('S10',[(N,'NAMED_FIELD => AnyField::NamedField(NamedField { syntax }),','')],'cast lacks a kind',B)
run('S10',[(N,'fn can_cast(kind: SyntaxKind) -> bool { matches!(kind, NAMED_FIELD | TUPLE_FIELD) }','fn can_cast(kind: SyntaxKind) -> bool { matches!(kind, NAMED_FIELD | TUPLE_FIELD | NAMED_FIELD_LIST) }')],'can_cast wider',B)
run('S10',[(N,'fn can_cast(kind: SyntaxKind) -> bool { kind == NAMED_FIELD }','fn can_cast(kind: SyntaxKind) -> bool { kind == TUPLE_FIELD }')],'can_cast wrong',B)
run('S10',[(A+'enum_.rs','let enum_ = variant_list.parent().unwrap();','let enum_ = variant_list;')],'variant parent',B)
run('S10',[(A+'enum_.rs','''        let variant_list = self.syntax.parent().unwrap();
        let enum_ = variant_list.parent().unwrap();
        ast::Enum::cast(enum_).unwrap()''','''        self.syntax
            .parent()
            .and_then(|it| it.parent())
            .and_then(ast::Enum::cast)
            .unwrap()''')],'benign variant parent chain',K)
run('S10',[(G+'items/adt.rs','''        if !has_name {
            m.abandon(p);
            return false;
        }

        let at_colon = p.eat(T![:]);''','''        match has_name {
            true => {}
            false => {
                m.abandon(p);
                return false;
            }
        }
        let at_colon = p.eat(T![:]);''')],'benign match',K)
run('S10',[(G+'expressions.rs','''                    value_arg_list(p);
                    return m.complete(p, METHOD_CALL_EXPR);''','''                    return finish_method_call(p, m);'''),(G+'expressions.rs','''fn index_expr(p: &mut Parser,''','''fn finish_method_call(p: &mut Parser, m: Marker) -> CompletedMarker {
    value_arg_list(p);
    m.complete(p, METHOD_CALL_EXPR)
}

fn index_expr(p: &mut Parser,''')],'benign helper',K)
