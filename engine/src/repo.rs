//! Whole-repository source index: every non-test Rust file is parsed; functions, types, consts
//! and imports are indexed so that rules can resolve callees instead of matching text.
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub type FnId = usize;

pub struct FnInfo {
    pub id: FnId,
    pub name: String,
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub sig: &'static syn::Signature,
    pub block: &'static syn::Block,
    pub attrs: &'static [syn::Attribute],
    pub vis_pub: bool,
    pub file: String,
    pub line: usize,
    /// enclosing function when this is a nested `fn`
    pub parent_fn: Option<String>,
}
impl FnInfo {
    pub fn qual(&self) -> String {
        let mut s = self.module.join("::");
        if let Some(t) = &self.self_ty {
            s.push_str("::");
            s.push_str(t);
        }
        s.push_str("::");
        s.push_str(&self.name);
        s
    }
    pub fn short(&self) -> String {
        match &self.self_ty {
            Some(t) => format!("{}::{}", t, self.name),
            None => format!("{}::{}", self.module.last().cloned().unwrap_or_default(), self.name),
        }
    }
    pub fn has_self(&self) -> bool {
        self.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)))
    }
    pub fn params(&self) -> Vec<(String, &'static syn::Type)> {
        let mut v = vec![];
        for a in &self.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let n = match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".into(),
                };
                v.push((n, &*t.ty));
            }
        }
        v
    }
}

pub struct ConstInfo {
    pub name: String,
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub expr: &'static syn::Expr,
    pub ty: &'static syn::Type,
    pub file: String,
    pub line: usize,
}
pub struct EnumInfo {
    pub name: String,
    pub module: Vec<String>,
    pub item: &'static syn::ItemEnum,
    pub file: String,
}
pub struct StructInfo {
    pub name: String,
    pub module: Vec<String>,
    pub item: &'static syn::ItemStruct,
    pub file: String,
}
pub struct ImplInfo {
    pub self_ty: String,
    pub trait_name: Option<String>,
    pub module: Vec<String>,
    pub item: &'static syn::ItemImpl,
    pub file: String,
}
pub struct MacroInfo {
    pub name: String,
    pub module: Vec<String>,
    pub mac: &'static syn::Macro,
    pub ident: Option<String>,
    pub file: String,
    pub line: usize,
}
#[derive(Default)]
pub struct ModScope {
    pub uses: HashMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
}
pub struct FileInfo {
    pub path: String,
    pub module: Vec<String>,
    pub ast: &'static syn::File,
    pub src: String,
}
#[derive(Default)]
pub struct Repo {
    pub root: PathBuf,
    pub files: Vec<FileInfo>,
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<FnId>>,
    pub consts: Vec<ConstInfo>,
    pub enums: Vec<EnumInfo>,
    pub structs: Vec<StructInfo>,
    pub impls: Vec<ImplInfo>,
    pub macros: Vec<MacroInfo>,
    pub scopes: HashMap<Vec<String>, ModScope>,
    pub modules: std::collections::HashSet<Vec<String>>,
    pub parse_errors: Vec<String>,
    pub crate_names: BTreeMap<String, String>,
}

pub fn type_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        syn::Type::Paren(p) => type_name(&p.elem),
        syn::Type::Group(p) => type_name(&p.elem),
        syn::Type::Ptr(p) => type_name(&p.elem),
        syn::Type::TraitObject(t) => t
            .bounds
            .iter()
            .find_map(|b| match b {
                syn::TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            })
            .unwrap_or_default(),
        syn::Type::Tuple(_) => "(tuple)".into(),
        syn::Type::Slice(_) => "[slice]".into(),
        syn::Type::Array(_) => "[array]".into(),
        _ => "".into(),
    }
}

pub fn line_of<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            let s = quote::quote!(#a).to_string();
            return s.contains("test") && !s.contains("not");
        }
        a.path().is_ident("test")
    })
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            if n == "target" || n == "tests" || n == ".git" || n == "node_modules" {
                continue;
            }
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

impl Repo {
    pub fn load(root: &Path) -> Repo {
        let mut r = Repo { root: root.to_path_buf(), ..Default::default() };
        let mut crate_dirs: Vec<(String, PathBuf)> = vec![];
        let mut roots = vec![];
        if let Ok(rd) = std::fs::read_dir(root.join("crates")) {
            let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            es.sort();
            roots.extend(es);
        }
        roots.push(root.join("xtask"));
        for d in roots {
            let n = d.file_name().unwrap().to_string_lossy().to_string();
            if n.starts_with("ide-tests") || n == "test-utils" {
                continue;
            }
            let mut cname = n.replace('-', "_");
            if let Ok(toml) = std::fs::read_to_string(d.join("Cargo.toml")) {
                for l in toml.lines() {
                    if let Some(rest) = l.trim().strip_prefix("name") {
                        let rest = rest.trim_start().trim_start_matches('=').trim().trim_matches('"');
                        cname = rest.replace('-', "_");
                        break;
                    }
                }
            }
            r.crate_names.insert(n.clone(), cname.clone());
            crate_dirs.push((cname, d.join("src")));
        }
        for (cname, src) in crate_dirs {
            let mut files = vec![];
            walk(&src, &mut files);
            for f in files {
                let rel = f.strip_prefix(&src).unwrap();
                let mut module = vec![cname.clone()];
                let comps: Vec<String> =
                    rel.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
                for (i, c) in comps.iter().enumerate() {
                    if i + 1 == comps.len() {
                        let stem = c.trim_end_matches(".rs");
                        if stem != "lib" && stem != "mod" && !(stem == "main" && comps.len() == 1) {
                            module.push(stem.to_string());
                        }
                    } else {
                        module.push(c.clone());
                    }
                }
                let text = match std::fs::read_to_string(&f) {
                    Ok(t) => t,
                    Err(e) => {
                        r.parse_errors.push(format!("{}: {e}", f.display()));
                        continue;
                    }
                };
                let relroot = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
                match syn::parse_file(&text) {
                    Ok(ast) => {
                        let ast: &'static syn::File = Box::leak(Box::new(ast));
                        if is_cfg_test(&ast.attrs) {
                            continue;
                        }
                        r.index_items(&ast.items, module.clone(), &relroot);
                        r.files.push(FileInfo { path: relroot, module, ast, src: text });
                    }
                    Err(e) => r.parse_errors.push(format!("{relroot}: {e}")),
                }
            }
        }
        r
    }

    fn add_fn(
        &mut self,
        sig: &'static syn::Signature,
        block: &'static syn::Block,
        attrs: &'static [syn::Attribute],
        vis_pub: bool,
        module: &[String],
        self_ty: Option<String>,
        trait_name: Option<String>,
        file: &str,
        parent_fn: Option<String>,
    ) {
        let id = self.fns.len();
        let name = sig.ident.to_string();
        self.by_name.entry(name.clone()).or_default().push(id);
        self.fns.push(FnInfo {
            id,
            name: name.clone(),
            module: module.to_vec(),
            self_ty: self_ty.clone(),
            trait_name,
            sig,
            block,
            attrs,
            vis_pub,
            file: file.to_string(),
            line: sig.ident.span().start().line,
            parent_fn,
        });
        // nested items
        struct Nested(Vec<&'static syn::Item>);
        impl<'ast> syn::visit::Visit<'ast> for Nested {
            fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
                if let syn::Stmt::Item(it) = s {
                    // the syntax tree is never freed
                    self.0.push(unsafe { std::mem::transmute::<&'ast syn::Item, &'static syn::Item>(it) });
                } else {
                    syn::visit::visit_stmt(self, s);
                }
            }
        }
        let mut nested = Nested(vec![]);
        syn::visit::Visit::visit_block(&mut nested, block);
        for it in nested.0 {
            self.index_item(it, module.to_vec(), file, Some(name.clone()));
        }
    }

    /// items that come from the expansion of a macro
    pub fn add_items(&mut self, file: syn::File, module: Vec<String>, path: &str) {
        let ast: &'static syn::File = Box::leak(Box::new(file));
        self.index_items(&ast.items, module, path);
    }
    fn index_items(&mut self, items: &'static [syn::Item], module: Vec<String>, file: &str) {
        self.modules.insert(module.clone());
        self.scopes.entry(module.clone()).or_default();
        for it in items {
            self.index_item(it, module.clone(), file, None);
        }
    }

    fn index_item(&mut self, it: &'static syn::Item, module: Vec<String>, file: &str, parent: Option<String>) {
        use syn::Item::*;
        match it {
            Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    return;
                }
                self.add_fn(
                    &f.sig,
                    &f.block,
                    &f.attrs,
                    !matches!(f.vis, syn::Visibility::Inherited),
                    &module,
                    None,
                    None,
                    file,
                    parent,
                );
            }
            Impl(i) => {
                if is_cfg_test(&i.attrs) {
                    return;
                }
                let st = type_name(&i.self_ty);
                let tn = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                self.impls.push(ImplInfo {
                    self_ty: st.clone(),
                    trait_name: tn.clone(),
                    module: module.clone(),
                    item: i,
                    file: file.into(),
                });
                for ii in &i.items {
                    match ii {
                        syn::ImplItem::Fn(f) if !is_cfg_test(&f.attrs) => self.add_fn(
                            &f.sig,
                            &f.block,
                            &f.attrs,
                            tn.is_some() || !matches!(f.vis, syn::Visibility::Inherited),
                            &module,
                            Some(st.clone()),
                            tn.clone(),
                            file,
                            None,
                        ),
                        syn::ImplItem::Const(c) => self.consts.push(ConstInfo {
                            name: c.ident.to_string(),
                            module: module.clone(),
                            self_ty: Some(st.clone()),
                            expr: &c.expr,
                            ty: &c.ty,
                            file: file.into(),
                            line: line_of(c),
                        }),
                        _ => {}
                    }
                }
            }
            Trait(t) => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            self.add_fn(
                                &f.sig,
                                b,
                                &f.attrs,
                                true,
                                &module,
                                Some(t.ident.to_string()),
                                Some(t.ident.to_string()),
                                file,
                                None,
                            );
                        }
                    }
                }
            }
            Const(c) => self.consts.push(ConstInfo {
                name: c.ident.to_string(),
                module,
                self_ty: None,
                expr: &c.expr,
                ty: &c.ty,
                file: file.into(),
                line: line_of(c),
            }),
            Static(c) => self.consts.push(ConstInfo {
                name: c.ident.to_string(),
                module,
                self_ty: None,
                expr: &c.expr,
                ty: &c.ty,
                file: file.into(),
                line: line_of(c),
            }),
            Enum(e) => self.enums.push(EnumInfo {
                name: e.ident.to_string(),
                module,
                item: e,
                file: file.into(),
            }),
            Struct(e) => self.structs.push(StructInfo {
                name: e.ident.to_string(),
                module,
                item: e,
                file: file.into(),
            }),
            Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    return;
                }
                let mut mm = module.clone();
                mm.push(m.ident.to_string());
                if let Some((_, items)) = &m.content {
                    self.index_items(items, mm, file);
                }
            }
            Macro(m) => self.macros.push(MacroInfo {
                name: m.mac.path.segments.last().unwrap().ident.to_string(),
                module,
                mac: &m.mac,
                ident: m.ident.as_ref().map(|i| i.to_string()),
                file: file.into(),
                line: line_of(m),
            }),
            Use(u) => {
                let mut acc = vec![];
                flatten_use(&u.tree, &mut vec![], &mut acc);
                let sc = self.scopes.entry(module.clone()).or_default();
                for (path, alias) in acc {
                    let abs = absolutize(&module, &path);
                    match alias {
                        Some(a) => {
                            sc.uses.insert(a, abs);
                        }
                        None => sc.globs.push(abs),
                    }
                }
            }
            _ => {}
        }
    }

    pub fn find_fns(&self, name: &str) -> impl Iterator<Item = &FnInfo> {
        self.by_name.get(name).into_iter().flatten().map(|i| &self.fns[*i])
    }
    /// the unique fn with this name whose file ends with `file_suffix` (and self type if given)
    pub fn fn_in(&self, file_suffix: &str, self_ty: Option<&str>, name: &str) -> Option<&FnInfo> {
        self.find_fns(name)
            .find(|f| f.file.ends_with(file_suffix) && self_ty.is_none_or(|t| f.self_ty.as_deref() == Some(t)))
    }
    /// method of an inherent/trait impl anywhere in crate `krate`
    pub fn method(&self, krate: &str, self_ty: &str, name: &str) -> Option<&FnInfo> {
        self.find_fns(name).find(|f| f.module[0] == krate && f.self_ty.as_deref() == Some(self_ty))
    }

    fn expand_first(&self, module: &[String], segs: &[String], depth: usize) -> Vec<Vec<String>> {
        // candidates for absolute path
        let mut out = vec![];
        if segs.is_empty() || depth > 4 {
            return out;
        }
        match segs[0].as_str() {
            "crate" | "self" | "super" => {
                out.push(absolutize(module, segs));
                return out;
            }
            _ => {}
        }
        let mut local = module.to_vec();
        local.extend(segs.iter().cloned());
        out.push(local);
        if let Some(sc) = self.scopes.get(module) {
            let mut both = |q: Vec<String>| {
                if !self.crate_names.values().any(|c| *c == q[0]) {
                    let mut m = module.to_vec();
                    m.extend(q.iter().cloned());
                    out.push(m);
                }
                out.push(q);
            };
            if let Some(p) = sc.uses.get(&segs[0]) {
                let mut q = p.clone();
                q.extend(segs[1..].iter().cloned());
                both(q);
            }
            for g in &sc.globs {
                let mut q = g.clone();
                q.extend(segs.iter().cloned());
                both(q);
            }
        }
        if self.crate_names.values().any(|c| *c == segs[0]) {
            out.push(segs.to_vec());
        }
        out
    }

    /// Resolve a path used in `module` (with `self_ty` for `Self`) to a function.
    pub fn resolve_fn(&self, module: &[String], self_ty: Option<&str>, segs: &[String]) -> Option<FnId> {
        let mut segs = segs.to_vec();
        if segs.is_empty() {
            return None;
        }
        if segs[0] == "Self" {
            if let Some(t) = self_ty {
                segs[0] = t.to_string();
            }
        }
        let name = segs.last().unwrap().clone();
        let cands = self.by_name.get(&name)?;
        // iterate resolving imports up to depth
        let mut work: Vec<Vec<String>> = self.expand_first(module, &segs, 0);
        let mut seen = std::collections::HashSet::new();
        let mut depth = 0;
        while !work.is_empty() && depth < 5 {
            let mut next = vec![];
            for abs in &work {
                if !seen.insert(abs.clone()) {
                    continue;
                }
                for &c in cands {
                    let f = &self.fns[c];
                    let mut full = f.module.clone();
                    if let Some(t) = &f.self_ty {
                        full.push(t.clone());
                    }
                    full.push(f.name.clone());
                    if full == *abs {
                        return Some(c);
                    }
                }
                // re-exports: find the longest module prefix and resolve the next segment through its uses
                for k in (1..abs.len()).rev() {
                    let (m, rest) = abs.split_at(k);
                    if self.modules.contains(m) {
                        if let Some(sc) = self.scopes.get(m) {
                            let mut both = |q: Vec<String>| {
                                let mut mm = m.to_vec();
                                mm.extend(q.iter().cloned());
                                next.push(mm);
                                next.push(q);
                            };
                            if let Some(p) = sc.uses.get(&rest[0]) {
                                let mut q = p.clone();
                                q.extend(rest[1..].iter().cloned());
                                both(q);
                            }
                            for g in &sc.globs {
                                let mut q = g.clone();
                                q.extend(rest.iter().cloned());
                                both(q);
                            }
                        }
                        break;
                    }
                }
            }
            work = next;
            depth += 1;
        }
        // Type::method by type name
        if segs.len() >= 2 {
            let ty = &segs[segs.len() - 2];
            let m: Vec<_> = cands
                .iter()
                .copied()
                .filter(|c| self.fns[*c].self_ty.as_deref() == Some(ty.as_str()))
                .collect();
            let same: Vec<_> = m.iter().copied().filter(|c| self.fns[*c].module[0] == module[0]).collect();
            if same.len() == 1 {
                return Some(same[0]);
            }
            if m.len() == 1 {
                return Some(m[0]);
            }
            // module::function by last module segment
            let m: Vec<_> = cands
                .iter()
                .copied()
                .filter(|c| self.fns[*c].self_ty.is_none() && self.fns[*c].module.last() == Some(ty))
                .collect();
            if m.len() == 1 {
                return Some(m[0]);
            }
            return None;
        }
        // nested fns / same file
        let m: Vec<_> = cands
            .iter()
            .copied()
            .filter(|c| self.fns[*c].self_ty.is_none() && self.fns[*c].module == module)
            .collect();
        if m.len() == 1 {
            return Some(m[0]);
        }
        None
    }

    pub fn resolve_const(&self, module: &[String], self_ty: Option<&str>, segs: &[String]) -> Option<&ConstInfo> {
        let mut segs = segs.to_vec();
        if segs[0] == "Self" {
            if let Some(t) = self_ty {
                segs[0] = t.to_string();
            }
        }
        let name = segs.last().unwrap().clone();
        let cands: Vec<&ConstInfo> = self.consts.iter().filter(|c| c.name == name).collect();
        if cands.is_empty() {
            return None;
        }
        for abs in self.expand_first(module, &segs, 0) {
            for c in &cands {
                let mut full = c.module.clone();
                if let Some(t) = &c.self_ty {
                    full.push(t.clone());
                }
                full.push(c.name.clone());
                if full == abs {
                    return Some(c);
                }
            }
        }
        if segs.len() >= 2 {
            let t = &segs[segs.len() - 2];
            let m: Vec<_> = cands
                .iter()
                .filter(|c| c.self_ty.as_ref() == Some(t) || c.module.last() == Some(t))
                .collect();
            if m.len() == 1 {
                return Some(m[0]);
            }
        }
        let same: Vec<_> = cands.iter().filter(|c| c.module[0] == module[0] && c.self_ty.is_none()).collect();
        if same.len() == 1 && segs.len() == 1 {
            return Some(same[0]);
        }
        None
    }
    pub fn file(&self, suffix: &str) -> Option<&FileInfo> {
        self.files.iter().find(|f| f.path.ends_with(suffix))
    }
}

fn absolutize(module: &[String], path: &[String]) -> Vec<String> {
    match path[0].as_str() {
        "crate" => {
            let mut q = vec![module[0].clone()];
            q.extend(path[1..].iter().cloned());
            q
        }
        "self" => {
            let mut q = module.to_vec();
            q.extend(path[1..].iter().cloned());
            q
        }
        "super" => {
            let mut q = module.to_vec();
            let mut i = 0;
            while i < path.len() && path[i] == "super" {
                q.pop();
                i += 1;
            }
            q.extend(path[i..].iter().cloned());
            q
        }
        _ => path.to_vec(),
    }
}

fn flatten_use(t: &syn::UseTree, prefix: &mut Vec<String>, acc: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            flatten_use(&p.tree, prefix, acc);
            prefix.pop();
        }
        syn::UseTree::Name(n) => {
            let n = n.ident.to_string();
            if n == "self" {
                acc.push((prefix.clone(), Some(prefix.last().unwrap().clone())));
            } else {
                let mut p = prefix.clone();
                p.push(n.clone());
                acc.push((p, Some(n)));
            }
        }
        syn::UseTree::Rename(r) => {
            let n = r.ident.to_string();
            let mut p = prefix.clone();
            if n != "self" {
                p.push(n);
            }
            acc.push((p, Some(r.rename.to_string())));
        }
        syn::UseTree::Glob(_) => acc.push((prefix.clone(), None)),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, prefix, acc);
            }
        }
    }
}
