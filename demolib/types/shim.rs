//! stand-ins for what the extracted code names but the demonstrations do not need
use crate::*;
#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SyntaxLoc(pub u32);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct TextRange(pub u32, pub u32);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct SyntaxKind(pub u16);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum Ability { Copy, Drop, Store, Key }
impl Ability { pub fn from_ast(_: &u32) -> Option<Ability> { None } }
pub struct InFileTp { pub value: Tp }
pub struct Tp;
impl Tp { pub fn ability_bounds(&self) -> Vec<u32> { vec![] } }
impl TyVar { pub fn origin_type_param(&self, _: &()) -> Option<InFileTp> { None } }
impl Ty { pub fn abilities(&self, _: &()) -> Option<Vec<Ability>> { None } }
pub struct InferenceCtx<'db> {
    pub db: &'db (),
    pub msl: bool,
    pub type_errors: u32,
    pub var_table: UnificationTable<TyVar>,
    pub int_table: UnificationTable<TyIntVar>,
}
impl<'db> InferenceCtx<'db> {
    pub fn new(db: &'db ()) -> Self {
        InferenceCtx { db, msl: false, type_errors: 0, var_table: UnificationTable::new(), int_table: UnificationTable::new() }
    }
    pub fn combine_new_type_struct_with_lambda(&mut self, _: &TyAdt, _: &TyCallable) -> Option<CombineResult> { None }
    pub fn report_combine_error(&mut self, _: CombineError, _: (), _: Ty, _: Ty) { self.type_errors += 1; }
}
// short spellings for the demonstrations
pub fn var(i: usize) -> Ty { Ty::Infer(TyInfer::Var(TyVar::new_anonymous(i))) }
pub fn ovar(l: u32, i: usize) -> Ty { Ty::Infer(TyInfer::Var(TyVar::new_with_origin(SyntaxLoc(l), i))) }
pub fn ivar(i: usize) -> Ty { Ty::Infer(TyInfer::IntVar(TyIntVar::new(i))) }
pub fn vec_of(t: Ty) -> Ty { Ty::Seq(TySequence::Vector(Box::new(t))) }
pub fn range_of(t: Ty) -> Ty { Ty::Seq(TySequence::Range(Box::new(t))) }
pub fn tuple(t: Vec<Ty>) -> Ty { Ty::Tuple(TyTuple { types: t }) }
pub fn param(l: u32) -> Ty { Ty::TypeParam(TyTypeParameter::from_loc(SyntaxLoc(l))) }
pub fn subst(v: &[(u32, Ty)]) -> Substitution { Substitution::new(v.iter().map(|(l, t)| (TyTypeParameter::from_loc(SyntaxLoc(*l)), t.clone())).collect()) }
pub fn adt(loc: u32, args: Vec<Ty>) -> Ty {
    let s: Vec<(u32, Ty)> = args.iter().enumerate().map(|(i, t)| (loc * 100 + i as u32, t.clone())).collect();
    Ty::Adt(TyAdt { adt_item_loc: SyntaxLoc(loc), substitution: subst(&s), type_args: args })
}
