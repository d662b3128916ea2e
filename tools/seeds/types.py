T='crates/lang/src/types/'
MAIN='''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(3) });
    let db = ();
%s
}
'''
FOLD=MAIN % '''
    // every shape of type, with a parameter, a variable and an unknown somewhere inside
    let shapes: Vec<(&str, Box<dyn Fn(Ty) -> Ty>)> = vec![
        ("vector", Box::new(|t| vec_of(t))), ("range", Box::new(|t| range_of(t))), ("tuple", Box::new(|t| tuple(vec![Ty::Bool, t]))),
        ("tuple2", Box::new(|t| tuple(vec![t, Ty::Bool]))), ("ref", Box::new(|t| Ty::Reference(TyReference::new(t, Mutability::Immutable)))), ("adt", Box::new(|t| adt(7, vec![t, Ty::Bool]))),
        ("params", Box::new(|t| Ty::Callable(TyCallable::new(vec![t], Ty::Unit, TyCallableKind::Lambda(None))))),
        ("ret", Box::new(|t| Ty::Callable(TyCallable::new(vec![], t, TyCallableKind::Lambda(None))))),
        ("named", Box::new(|t| Ty::Callable(TyCallable::new(vec![], Ty::Unit, TyCallableKind::Named(subst(&[(9, t)]), None))))),
        ("schema", Box::new(|t| Ty::Schema(TySchema { schema_loc: SyntaxLoc(4), substitution: subst(&[(5, t.clone())]), type_args: vec![t] }))),
    ];
    for (a, f) in &shapes { for (b, g) in &shapes {
        let mk = |t: Ty| f(g(t));
        assert_eq!(mk(param(1)).substitute(&subst(&[(1, Ty::Signer)])), mk(Ty::Signer), "{a} {b}: substitute");
        assert_eq!(mk(param(2)).substitute(&subst(&[(1, Ty::Signer)])), mk(param(2)), "{a} {b}: other parameter");
        assert!(mk(Ty::Unknown).has_ty_unknown() && mk(var(1)).has_ty_infer() && mk(param(1)).has_ty_type_param(), "{a} {b}: search");
        assert!(!mk(Ty::Bool).has_ty_unknown() && !mk(Ty::Bool).has_ty_infer() && !mk(Ty::Bool).has_ty_type_param(), "{a} {b}: search");
        let mut ctx = InferenceCtx::new(&db);
        ctx.var_table.unify_var_value(&TyVar::new_anonymous(1), vec_of(var(2)));
        ctx.var_table.unify_var_value(&TyVar::new_anonymous(2), Ty::Bool);
        assert_eq!(ctx.resolve_ty_vars_if_possible(mk(var(1))), mk(vec_of(Ty::Bool)), "{a} {b}: resolve");
        assert_eq!(ctx.fully_resolve_vars(mk(vec_of(var(3)))), mk(vec_of(Ty::Unknown)), "{a} {b}: resolve to the end");
    }}
'''
UNI=MAIN % '''
    let v = |i: usize| TyVar::new_anonymous(i);
    for flip in [false, true] {
        let mut t = UnificationTable::new();
        t.unify_var_value(&v(1), Ty::Bool);
        if flip { t.unify_var_var(&v(2), &v(1)) } else { t.unify_var_var(&v(1), &v(2)) }
        assert_eq!((t.resolve_to_ty_value(&v(1)), t.resolve_to_ty_value(&v(2))), (Some(Ty::Bool), Some(Ty::Bool)));
    }
    // joined in every order, before and after one of them is known
    for known in 0..4usize { for when in 0..4usize { for order in 0..24usize {
        let mut pairs = vec![(0, 1), (1, 2), (0, 2), (3, 1)];
        let mut o = order; let mut ps = vec![];
        while !pairs.is_empty() { let n = pairs.len(); ps.push(pairs.remove(o % n)); o /= n.max(1); }
        for flip in 0..2 {
            let mut ctx = InferenceCtx::new(&db);
            for (i, (a, b)) in ps.iter().enumerate() {
                if i == when { let _ = ctx.combine_types(var(known), vec_of(ivar(1))); }
                let (a, b) = if flip == 1 { (b, a) } else { (a, b) };
                let _ = ctx.combine_types(var(*a), var(*b));
            }
            for i in 0..4 { assert_eq!(ctx.resolve_ty_vars_if_possible(var(i)), vec_of(ivar(1)), "{known} {when} {ps:?} {flip} {i}"); }
            let _ = v;
        }
    }}}
'''
TRIAL=MAIN % '''
    let mut ctx = InferenceCtx::new(&db);
    let (a, b) = (tuple(vec![var(1), ivar(1), ivar(2)]), tuple(vec![Ty::Bool, Ty::Integer(IntegerKind::U8), ivar(3)]));
    assert!(ctx.is_tys_compatible(a.clone(), b.clone()));
    assert_eq!(ctx.resolve_ty_vars_if_possible(a.clone()), a, "a trial binds nothing");
    let c = tuple(vec![Ty::Bool, Ty::Integer(IntegerKind::U64), ivar(3)]);
    assert!(ctx.coerce_types((), c.clone(), a.clone()), "after a trial with u8 the variable can still be u64");
    assert_eq!(ctx.resolve_ty_vars_if_possible(var(1)), Ty::Bool);
'''
def s(i, edits, needs, breaks, main):
    return dict(id=i, property=i[:3].upper(), edits=[(T+f, o, n) for f, o, n in edits], needs=needs, breaks=breaks, files={'main.rs': main}, libs=['types'])
SEEDS=[
 s('d08-callable-kind-not-folded', [('ty/ty_callable.rs','            kind.fold_with(folder),','            kind,')], 'a generic function type whose substitution holds a type parameter or variable', 'the type arguments of an instantiated function stay unresolved', FOLD),
 s('d08-schema-not-searched', [('ty.rs','            Ty::Schema(ty_schema) => ty_schema.deep_visit_with(visitor),\n','')], 'an unknown type inside a schema type', 'a type error about it is shown although the type is not known', FOLD),
 s('d08-resolved-variable-not-descended', [('fold.rs','            res_ty = self.ctx.resolve_ty_infer(&ty_infer);\n','            let resolved = self.ctx.resolve_ty_infer(&ty_infer);\n            if !matches!(resolved, Ty::Seq(_)) {\n                return resolved.deep_fold_with(self);\n            }\n            return resolved;\n')], 'a variable bound to a vector of another variable', 'the element type stays a variable in hovers and errors', FOLD),
 s('d08-visit-tys-last-wins', [('fold.rs','tys.iter().fold(false, |acc, t| acc || self.visit_ty(t))','tys.iter().fold(false, |_, t| self.visit_ty(t))')], 'the sought type in an argument that is not the last', 'unknown types are overlooked and false type errors shown', FOLD),
 s('d07-left-value-lost', [('unification.rs','_ => left_value_ty.or(right_value_ty),','_ => right_value_ty,')], 'a variable that is known joined to one that is not', 'the known type is forgotten', UNI),
 s('d07-self-link', [('unification.rs','if left_root_var == right_root_var {','if left_var == right_var {'),('unification.rs','            .insert(left_root_var, TableValue::Var(right_root_var.clone()));\n        self.mapping\n            .insert(right_root_var, TableValue::Value(new_value_ty));','            .insert(right_root_var.clone(), TableValue::Value(new_value_ty));\n        self.mapping\n            .insert(left_root_var, TableValue::Var(right_root_var));')], 'two variables joined twice by way of a third', 'a root linked to itself: inference never ends', UNI),
 s('d07-links-not-the-root', [('unification.rs','.insert(left_root_var, TableValue::Var(right_root_var.clone()));','.insert(left_var.clone(), TableValue::Var(right_root_var.clone()));')], 'a variable that is already linked joined to another', 'the other members of its class are left behind', UNI),
 s('d07-int-trial-kept', [('inference.rs','        self.int_table.rollback();\n','        if self.int_table.snapshot_count() > 1 {\n            self.int_table.rollback();\n        }\n'),('unification.rs','    pub fn rollback(','    pub fn snapshot_count(&self) -> usize {\n        self.snapshots.len()\n    }\n\n    pub fn rollback(')], 'a trial comparison that binds an integer variable, then a different integer type', 'the integer type of the trial sticks', TRIAL),
]
