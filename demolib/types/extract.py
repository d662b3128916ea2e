"""extract.py REPO HERE WORK: cuts the type representation, folding, substitution and unification out of the real
sources (whole items, and named methods of impl blocks), puts them with shim.rs and main.rs, and compiles them."""
import re, subprocess, sys, os
repo, here, work = sys.argv[1:4]
S = repo + '/crates/lang/src/types/'
T = {}
def text(f):
    if f not in T: T[f] = open(S + f).read()
    return T[f]
def block(t, start):
    """from start to the matching close of the first brace"""
    i = t.index('{', start); d = 0
    for j in range(i, len(t)):
        if t[j] == '{': d += 1
        elif t[j] == '}':
            d -= 1
            if d == 0: return t[start:j + 1]
def find(f, pat):
    t = text(f)
    m = re.search(r'^(?:#\[[^\n]*\]\n)*' + pat, t, re.M)
    if not m: print('not found:', f, pat); sys.exit(99)
    return block(t, m.start())
def methods(f, head, names, opt=()):
    """the named methods of all impl blocks of this type, wherever they are"""
    t = text(f); out = ''
    seen = set()
    for m in re.finditer(r'^    (?:#\[[^\n]*\]\n    )*(?:pub(?:\([a-z]+\))? )?fn (\w+)', t, re.M):
        if m.group(1) in names and m.group(1) not in seen:
            seen.add(m.group(1)); out += block(t, m.start()) + '\n'
    for n in names:
        if n not in seen and n not in opt: print('method not found:', f, n); sys.exit(99)
    return head + ' {\n' + out + '}\n'
def helpers(f, used):
    """other methods of the file that the chosen ones call on self"""
    names = set(re.findall(r'self\.(\w+)\(', used)) | set(re.findall(r'Self::(\w+)\(', used)) | set(re.findall(r'ctx\.(\w+)\(', used))
    return [n for n in names if re.search(r'^    (?:pub(?:\([a-z]+\))? )?fn ' + n + r'\b', text(f), re.M)]
out = 'mod shim;\nuse shim::*;\nuse std::collections::HashMap; use std::ops::Deref; use std::cell::{Cell, RefCell}; use std::fmt::{self, Debug, Formatter}; use std::hash::Hash; use std::iter::{self, zip};\n'
def whole(f, *cut):
    """a whole file without its imports, tests and the given items"""
    t = text(f)
    k = t.find('#[cfg(test)]\nmod ')
    if k >= 0: t = t[:k]
    t = re.sub(r'^(?:pub(?:\([a-z]+\))? )?use [^;]*;\n', '', t, flags=re.M)
    t = re.sub(r'^(?:pub(?:\([a-z]+\))? )?mod \w+;\n', '', t, flags=re.M)
    for c in cut:
        m = re.search(r'^(?:#\[[^\n]*\]\n)*' + c, t, re.M)
        if m: t = t.replace(block(t, m.start()), '')
    return t + '\n'
def nomethods(t, names):
    for n in names:
        m = re.search(r'^    (?:#\[[^\n]*\]\n    )*(?:pub(?:\([a-z]+\))? )?fn ' + n + r'\b', t, re.M)
        if m: t = t.replace(block(t, m.start()), '')
    return t
out += whole('fold.rs') + whole('substitution.rs') + whole('unification.rs')
out += nomethods(whole('ty/ty_var.rs', r'impl fmt::Debug for TyVar '), ['origin_type_param'])
out += 'impl Debug for TyVar { fn fmt(&self, f: &mut Formatter<\'_>) -> fmt::Result { write!(f, "{:?}", self.kind) } }\n'
out += whole('ty/tuple.rs') + whole('ty/range_like.rs')
out += nomethods(whole('ty/schema.rs'), ['new', 'schema'])
out += nomethods(whole('ty/adt.rs'), ['new', 'adt_item', 'adt_item_module'])
out += find('ty/type_param.rs', r'pub struct TyTypeParameter') + '\nimpl TyTypeParameter { pub fn from_loc(origin_loc: SyntaxLoc) -> Self { TyTypeParameter { origin_loc } } }\n'
out += find('ty/reference.rs', r'pub struct TyReference') + '\n' + find('ty/reference.rs', r'pub enum Mutability') + '\n'
out += find('ty/reference.rs', r'impl From<TyReference> for Ty') + '\n' + find('ty/reference.rs', r'impl TyReference') + '\n' + find('ty/reference.rs', r'impl TypeFoldable<TyReference>') + '\n'
out += find('ty/reference.rs', r'impl Mutability') + '\n'
for p in [r'pub struct TyCallable\b', r'pub enum TyCallableKind', r'impl TypeFoldable<TyCallableKind>', r'impl TypeFoldable<TyCallable>']:
    out += find('ty/ty_callable.rs', p) + '\n'
out += methods('ty/ty_callable.rs', 'impl TyCallable', ['new', 'ret_type_ty'], opt=['ret_type_ty'])
out += find('ty/integer.rs', r'pub enum IntegerKind') + '\nimpl IntegerKind { pub fn is_default(&self) -> bool { *self == IntegerKind::Integer } }\n'
out += find('ty.rs', r'pub enum Ty\b') + '\n' + find('ty.rs', r'impl TypeFoldable<Ty> for Ty') + '\n'
out += methods('ty.rs', 'impl Ty', ['refine_for_specs', 'single_element_tuple_ty', 'unwrap_all_refs', 'new_reference'], opt=['single_element_tuple_ty', 'new_reference'])
c = 'inference/combine_types.rs'
names = ['is_tys_compatible', 'coerce_types', 'combine_types', 'intersect_all_types']
skip = {'report_combine_error', 'combine_new_type_struct_with_lambda', 'push_type_error'}
inf = ['resolve_ty_infer', 'var_resolver', 'resolve_ty_vars_if_possible', 'fully_resolve_vars', 'fully_resolve_vars_fallback_to_origin', 'freeze', 'msl_scope']
for _ in range(8):
    for f, l in [(c, names), ('inference.rs', inf)]:
        body = methods(c, '', names) + methods('inference.rs', '', inf)
        l += [h for h in helpers(f, body) if h not in l and h not in skip]
out += methods(c, "impl InferenceCtx<'_>", names).replace('SyntaxNodeOrToken', '()')
out += methods('inference.rs', "impl<'db> InferenceCtx<'db>", inf)
out += find(c, r'pub enum CombineError') + '\n' + find(c, r'impl CombineError') + '\npub type CombineResult = Result<(), CombineError>;\n'
out += find(c, r'pub enum TypeError') + '\n' + find(c, r'impl TypeFoldable<TypeError>') + '\n'
out += open(os.path.join(here, 'main.rs')).read()
open(work + '/main.rs', 'w').write(out)
open(work + '/shim.rs', 'w').write(open(os.path.join(here, 'shim.rs')).read())
r = subprocess.run(['rustc', '--edition', '2024', '-A', 'warnings', '-o', work + '/demo', work + '/main.rs'], capture_output=True, text=True)
if r.returncode: print(r.stderr[:5000]); sys.exit(99)
