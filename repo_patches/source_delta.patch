From bee1859cb0145b544cffbd0066b9801c189fa29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 01/28] fix: do not panic on a keyword in the address position
 of `module`

---
 crates/syntax/src/parse/grammar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..01b9ec7 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -86,7 +86,8 @@ pub(crate) fn module(p: &mut Parser, m: Marker) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        // the token before `::` is left in place if it's not a valid address
+        p.eat(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 
@@ -148,7 +149,8 @@ pub(crate) fn module_name(p: &mut Parser) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        // the token before `::` is left in place if it's not a valid address
+        p.eat(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 }
-- 
2.43.0


From c427ef5ba6d8789011dbb0c3b82264d1a093263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 02/28] fix: report a missing argument list as an error instead
 of panicking

---
 crates/syntax/src/parse/grammar/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..df2dddd 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -301,7 +301,10 @@ fn index_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
 }
 
 pub(crate) fn value_arg_list(p: &mut Parser) {
-    assert!(p.at(T!['(']));
+    if !p.at(T!['(']) {
+        p.error("expected argument list");
+        return;
+    }
     let m = p.start();
     p.bump(T!['(']);
     delimited_with_recovery(
-- 
2.43.0


From e20a70b857433dd9326080200911ee5f4c71ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 03/28] fix: measure block comment length in bytes, not
 characters

---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 84351d1374c337d3ff57ee69c708ba0505b33957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 04/28] fix: apply a change that was added twice to a TextEdit
 only once

TextEditBuilder accepts equal changes, but finish() kept both copies of a
deletion or replacement, and TextEdit::apply then replaced the same offsets
twice, eating the text that follows. TextEdit::union already drops such
duplicates.
---
 crates/ide-db/src/text_edit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ide-db/src/text_edit.rs b/crates/ide-db/src/text_edit.rs
index 8f4d303..0279848 100644
--- a/crates/ide-db/src/text_edit.rs
+++ b/crates/ide-db/src/text_edit.rs
@@ -188,6 +188,8 @@ impl TextEditBuilder {
     pub fn finish(self) -> TextEdit {
         let mut changes = self.text_changes;
         assert_disjoint_or_equal(&mut changes);
+        // Only dedup deletions and replacements, keep all insertions
+        changes.dedup_by(|b, a| a == b && !a.range.is_empty());
         changes = coalesce_text_changes(changes);
         TextEdit { changes }
     }
-- 
2.43.0


From 39f3490ffaa49e767daa957011301d33a3f65839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 05/28] fix: re-run queries that look up a file's package when
 the package roots are replaced

---
 crates/ide-db/src/root_db.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index b21453b..ead29fd 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -83,6 +83,7 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn file_package_id(&self, id: FileId) -> PackageId {
+        self.depend_on_package_roots();
         self.files.file_package_id(id)
     }
 
@@ -108,6 +109,7 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn spec_related_files(&self, file_id: FileId) -> FileIdSet {
+        self.depend_on_package_roots();
         self.files.spec_related_files(file_id)
     }
 
@@ -145,6 +147,14 @@ impl RootDatabase {
         db
     }
 
+    /// `replace_package_roots()` creates new inputs for packages and their files. The maps from the files
+    /// to those inputs are invisible to salsa, so a query which looks something up there needs to depend
+    /// on the set of packages explicitly. Otherwise it keeps its value (and refers to packages which do not
+    /// exist anymore) when a file is created or removed.
+    fn depend_on_package_roots(&self) {
+        let _ = self.files.package_ids().data(self);
+    }
+
     pub fn snapshot(&self) -> Self {
         Self {
             storage: self.storage.clone(),
-- 
2.43.0


From 6d8a8c246f10515602d9b3c476730d96c0ba1bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 06/28] fix: a request cancelled while its answer is converted
 is not answered with a part of it

---
 .../src/handlers/request.rs                   | 11 ++++----
 .../aptos-language-server/src/lsp/to_proto.rs | 28 +++++++++----------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/request.rs b/crates/aptos-language-server/src/handlers/request.rs
index fd588eb..b892f19 100644
--- a/crates/aptos-language-server/src/handlers/request.rs
+++ b/crates/aptos-language-server/src/handlers/request.rs
@@ -601,8 +601,7 @@ pub(crate) fn handle_references(
 ) -> anyhow::Result<Option<Vec<Location>>> {
     let _p = tracing::info_span!("handle_references").entered();
 
-    let position =
-        try_default!(from_proto::file_position(&snap, params.text_document_position_params).ok());
+    let position = from_proto::file_position(&snap, params.text_document_position_params)?;
     let Some(refs) = snap.analysis.find_all_refs(position, None)? else {
         return Ok(None);
     };
@@ -627,8 +626,8 @@ pub(crate) fn handle_references(
         })
         .chain(decl)
         .unique()
-        .filter_map(|frange| to_proto::location(&snap, frange).ok())
-        .collect();
+        .map(|frange| to_proto::location(&snap, frange))
+        .collect::<Cancellable<Vec<_>>>()?;
 
     Ok(Some(locations))
 }
@@ -788,7 +787,7 @@ pub(crate) fn handle_inlay_hints_resolve(
     )?;
 
     Ok(resolve_hints
-        .and_then(|it| {
+        .map(|it| {
             to_proto::inlay_hint(
                 &snap,
                 &forced_resolve_inlay_hints_config.fields_to_resolve,
@@ -796,8 +795,8 @@ pub(crate) fn handle_inlay_hints_resolve(
                 file_id,
                 it,
             )
-            .ok()
         })
+        .transpose()?
         .filter(|hint| hint.position == original_hint.position)
         .filter(|hint| hint.kind == original_hint.kind)
         .unwrap_or(original_hint))
diff --git a/crates/aptos-language-server/src/lsp/to_proto.rs b/crates/aptos-language-server/src/lsp/to_proto.rs
index 442a783..14fbe53 100644
--- a/crates/aptos-language-server/src/lsp/to_proto.rs
+++ b/crates/aptos-language-server/src/lsp/to_proto.rs
@@ -1016,7 +1016,7 @@ pub(crate) fn code_lens(
 
             let command = item_spec_refs
                 .map(|mut nav_items| match nav_items.len() {
-                    0 => None,
+                    0 => Ok(None),
                     1 => {
                         let nav_item = nav_items.pop().unwrap();
                         command::goto_location(snap, "1 specification", &nav_item)
@@ -1024,7 +1024,7 @@ pub(crate) fn code_lens(
                     items_len => {
                         let locations: Vec<lsp_types::Location> = nav_items
                             .into_iter()
-                            .filter_map(|target| {
+                            .map(|target| {
                                 location(
                                     snap,
                                     FileRange {
@@ -1032,17 +1032,17 @@ pub(crate) fn code_lens(
                                         range: target.full_range,
                                     },
                                 )
-                                .ok()
                             })
-                            .collect();
-                        Some(command::show_references(
+                            .collect::<Cancellable<_>>()?;
+                        Ok(Some(command::show_references(
                             format!("{items_len} specifications"),
                             &url,
                             pos,
                             locations,
-                        ))
+                        )))
                     }
                 })
+                .transpose()?
                 .flatten();
 
             acc.push(lsp_types::CodeLens {
@@ -1068,7 +1068,7 @@ pub(crate) mod command {
     use crate::global_state::GlobalStateSnapshot;
     use crate::lsp::to_proto::{location, location_link};
     use crate::lsp_ext;
-    use ide::NavigationTarget;
+    use ide::{Cancellable, NavigationTarget};
     use syntax::files::FileRange;
 
     pub(crate) fn run_test(runnable: &lsp_ext::Runnable, title: &str) -> lsp_types::Command {
@@ -1124,25 +1124,25 @@ pub(crate) mod command {
         snap: &GlobalStateSnapshot,
         title: impl Into<String>,
         nav: &NavigationTarget,
-    ) -> Option<lsp_types::Command> {
+    ) -> Cancellable<Option<lsp_types::Command>> {
         let value = if snap.config.location_link() {
-            let link = location_link(snap, None, nav.clone()).ok()?;
-            serde_json::to_value(link).ok()?
+            let link = location_link(snap, None, nav.clone())?;
+            serde_json::to_value(link)
         } else {
             let range = FileRange {
                 file_id: nav.file_id,
                 range: nav.focus_or_full_range(),
             };
-            let location = location(snap, range).ok()?;
-            serde_json::to_value(location).ok()?
+            let location = location(snap, range)?;
+            serde_json::to_value(location)
         };
 
-        Some(lsp_types::Command {
+        Ok(value.ok().map(|value| lsp_types::Command {
             title: title.into(),
             command: "move-on-aptos.gotoLocation".into(),
             arguments: Some(vec![value]),
             tooltip: None,
-        })
+        }))
     }
 }
 
-- 
2.43.0


From bc3e7493915241c489529611181272e409512cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 07/28] fix: do not bind an already unified type variable to
 unknown

Comparing a type that is unknown with one that contains a variable unified
earlier in the same comparison panicked in the unification table.
---
 crates/lang/src/types/inference/combine_types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index ff5f57f..b7df087 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -143,6 +143,8 @@ impl InferenceCtx<'_> {
     fn unify_ty_vars_with_unknown(&mut self, tys: Vec<Ty>) {
         let ty_vars = RefCell::new(vec![]);
         for ty in tys {
+            // variables that are unified already keep their values
+            let ty = self.resolve_ty_vars_if_possible(ty);
             ty.deep_visit_ty_infers(|ty_infer| {
                 if let TyInfer::Var(ty_var) = ty_infer {
                     ty_vars.borrow_mut().push(ty_var.clone());
-- 
2.43.0


From 7d11f5280b1ce2cdcb19930d25f8db8092442ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 08/28] fix: look for a type variable in the values of other
 variables before binding it

Comparing (?a, ?b) with (vector<?b>, vector<?a>) made each variable part of the
value of the other, and resolving either overflowed the stack.
---
 crates/lang/src/types/inference/combine_types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index b7df087..f1cf9ee 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -199,6 +199,8 @@ impl InferenceCtx<'_> {
     }
 
     fn ty_contains_ty_var(&self, ty: &Ty, ty_var: &TyVar) -> bool {
+        // the variable can also be reached through the values of other variables
+        let ty = self.resolve_ty_vars_if_possible(ty.to_owned());
         ty.deep_visit_ty_infers(|ty_infer| match ty_infer {
             TyInfer::Var(inner_ty_var) => &self.var_table.resolve_to_root_var(&inner_ty_var) == ty_var,
             _ => false,
-- 
2.43.0


From 6681cbe6cd683f8463eae0b97c2133de7701b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 09/28] fix: do not panic on a struct or enum in a script or
 module spec

---
 crates/lang/src/nameres/fq_named_element.rs      | 2 +-
 crates/lang/src/types/ty.rs                      | 2 +-
 crates/lang/src/types/ty/adt.rs                  | 3 +--
 crates/syntax/src/ast/node_ext/struct_or_enum.rs | 7 +++----
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/lang/src/nameres/fq_named_element.rs b/crates/lang/src/nameres/fq_named_element.rs
index fdbe615..9c920a7 100644
--- a/crates/lang/src/nameres/fq_named_element.rs
+++ b/crates/lang/src/nameres/fq_named_element.rs
@@ -110,7 +110,7 @@ impl<T: AstNode> ItemFQNameOwner for InFile<T> {
                     })
                 },
                 ast::StructOrEnum(it) => {
-                    let module_fq_name = it.module().in_file(it_file_id).fq_name(db)?;
+                    let module_fq_name = it.module()?.in_file(it_file_id).fq_name(db)?;
                     let name = it.name()?;
                     Some(ItemFQName::Item {
                         module_fq_name: Box::new(module_fq_name),
diff --git a/crates/lang/src/types/ty.rs b/crates/lang/src/types/ty.rs
index 8291397..07973fb 100644
--- a/crates/lang/src/types/ty.rs
+++ b/crates/lang/src/types/ty.rs
@@ -112,7 +112,7 @@ impl Ty {
         match ty {
             Ty::Adt(ty_adt) => {
                 let item = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?;
-                Some(item.map(|it| it.module()))
+                item.and_then(|it| it.module())
             }
             Ty::Seq(TySequence::Vector(_)) => {
                 let module = get_modules_as_entries(db, current_package_id, Address::named("std"))
diff --git a/crates/lang/src/types/ty/adt.rs b/crates/lang/src/types/ty/adt.rs
index c3f0ad2..7661924 100644
--- a/crates/lang/src/types/ty/adt.rs
+++ b/crates/lang/src/types/ty/adt.rs
@@ -39,8 +39,7 @@ impl TyAdt {
 
     pub fn adt_item_module(&self, db: &dyn SourceDatabase) -> Option<ast::Module> {
         let adt_item = self.adt_item(db)?;
-        let m = adt_item.value.module();
-        Some(m)
+        adt_item.value.module()
     }
 }
 
diff --git a/crates/syntax/src/ast/node_ext/struct_or_enum.rs b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
index ce05829..c9e88e0 100644
--- a/crates/syntax/src/ast/node_ext/struct_or_enum.rs
+++ b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
@@ -10,10 +10,9 @@ use crate::{AstNode, ast};
 use std::collections::HashSet;
 
 impl ast::StructOrEnum {
-    pub fn module(&self) -> ast::Module {
-        self.syntax()
-            .parent_of_type::<ast::Module>()
-            .expect("required by the parser")
+    /// `None` for an item in a script or a module spec
+    pub fn module(&self) -> Option<ast::Module> {
+        self.syntax().parent_of_type::<ast::Module>()
     }
 
     pub fn fields(&self) -> Vec<(String, ast::AnyField)> {
-- 
2.43.0


From de0f36d768b1fbc86c86a98c5583cce4113e3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 10/28] fix: do not panic on a function parameter without a
 name

---
 crates/syntax/src/ast/node_ext/param.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/ast/node_ext/param.rs b/crates/syntax/src/ast/node_ext/param.rs
index ce0c7e1..f1152c0 100644
--- a/crates/syntax/src/ast/node_ext/param.rs
+++ b/crates/syntax/src/ast/node_ext/param.rs
@@ -22,9 +22,11 @@ impl ast::Param {
         if self.wildcard_pat().is_some() {
             return "_".to_string();
         }
-        // todo: ident_pat can be none
-        let ident_pat = self.ident_pat().unwrap();
-        ident_pat.name().unwrap().as_string()
+        // a malformed parameter has no name
+        self.ident_pat()
+            .and_then(|ident_pat| ident_pat.name())
+            .map(|name| name.as_string())
+            .unwrap_or_else(|| "_".to_string())
     }
 
     pub fn is_self(&self) -> bool {
-- 
2.43.0


From cfd8418d89f8868adc9c25abd7476e9e16431378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 11/28] fix: do not build a path expression without a path
 after `apply`

---
 crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
index 5e940c9..7ba35be 100644
--- a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
+++ b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
@@ -54,7 +54,11 @@ pub(crate) fn apply_lemma(p: &mut Parser) -> bool {
     let m = p.start();
     p.bump_remap(T![apply]);
     // lemma path
-    atom::path_expr(p);
+    if paths::is_path_start(p) {
+        atom::path_expr(p);
+    } else {
+        p.error("expected lemma path");
+    }
     // lemma args
     expressions::value_arg_list(p);
     p.expect(T![;]);
-- 
2.43.0


From 04bf67fc89b11e59f5d1276df5dc09cad77f16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 12/28] fix: do not start a literal pattern at an address

---
 crates/syntax/src/parse/grammar/expressions/atom.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions/atom.rs b/crates/syntax/src/parse/grammar/expressions/atom.rs
index 4001411..a6949dd 100644
--- a/crates/syntax/src/parse/grammar/expressions/atom.rs
+++ b/crates/syntax/src/parse/grammar/expressions/atom.rs
@@ -45,7 +45,13 @@ pub(crate) fn literal(p: &mut Parser) -> Option<CompletedMarker> {
 }
 
 pub(crate) fn is_literal_pat_start(p: &Parser) -> bool {
-    (p.at(T![-]) && (p.nth(1) == INT_NUMBER)) || p.at_ts(LITERAL_FIRST)
+    // `1::` starts an address, not a literal
+    let is_int_number = |n: usize| p.nth(n) == INT_NUMBER && !p.nth_at(n + 1, T![::]);
+    match p.current() {
+        T![-] => is_int_number(1),
+        INT_NUMBER => is_int_number(0),
+        _ => p.at_ts(LITERAL_FIRST),
+    }
 }
 
 pub(crate) const LITERAL_FIRST: TokenSet =
-- 
2.43.0


From 9f91df87d8b7900f6ef06fdd2b012d40a62743cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 13/28] Revert "fix: do not build a path expression without a
 path after `apply`"

This reverts commit cfd8418d89f8868adc9c25abd7476e9e16431378.
---
 crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
index 7ba35be..5e940c9 100644
--- a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
+++ b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
@@ -54,11 +54,7 @@ pub(crate) fn apply_lemma(p: &mut Parser) -> bool {
     let m = p.start();
     p.bump_remap(T![apply]);
     // lemma path
-    if paths::is_path_start(p) {
-        atom::path_expr(p);
-    } else {
-        p.error("expected lemma path");
-    }
+    atom::path_expr(p);
     // lemma args
     expressions::value_arg_list(p);
     p.expect(T![;]);
-- 
2.43.0


From 81dbf658661d33de61f34f6242b0e90779cc6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 14/28] fix: do not build a path expression without a path

`apply +;` in a proof asked for a path expression where no path starts;
ast::PathExpr::path() panics on a PATH_EXPR without a PATH.
---
 crates/syntax/src/parse/grammar/expressions/atom.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions/atom.rs b/crates/syntax/src/parse/grammar/expressions/atom.rs
index a6949dd..da07d15 100644
--- a/crates/syntax/src/parse/grammar/expressions/atom.rs
+++ b/crates/syntax/src/parse/grammar/expressions/atom.rs
@@ -155,7 +155,9 @@ fn is_assert_ident(p: &Parser) -> bool {
 
 pub(crate) fn path_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
-    paths::path(p, Some(PathMode::Expr));
+    if !paths::path(p, Some(PathMode::Expr)) {
+        return m.complete(p, ERROR);
+    }
     let cm = match p.current() {
         T!['{'] => {
             struct_lit_field_list(p);
-- 
2.43.0


From b4d1b7f8468a641739f68d3832fa0fdb07894c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 15/28] fix: send plain completions to clients without snippet
 support

Most completions are built as snippets whatever the client supports, so a
client without snippet support got a literal `$0` inserted into the code.
---
 crates/ide-completion/src/item.rs | 14 ++++++++++++++
 crates/ide-completion/src/lib.rs  |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/ide-completion/src/item.rs b/crates/ide-completion/src/item.rs
index 66418b7..48e4d7f 100644
--- a/crates/ide-completion/src/item.rs
+++ b/crates/ide-completion/src/item.rs
@@ -271,6 +271,20 @@ impl CompletionItem {
     pub fn lookup(&self) -> &str {
         self.lookup.as_str()
     }
+
+    /// Turns a snippet into plain text, for clients that do not support snippets.
+    /// `$0` is the only placeholder that completions use.
+    pub(crate) fn drop_snippet(&mut self) {
+        if !self.is_snippet {
+            return;
+        }
+        let mut plain_edit = TextEdit::builder();
+        for change in &self.text_edit {
+            plain_edit.replace(change.range, change.new_text.replace("$0", ""));
+        }
+        self.text_edit = plain_edit.finish();
+        self.is_snippet = false;
+    }
 }
 
 /// A helper to make `CompletionItem`s.
diff --git a/crates/ide-completion/src/lib.rs b/crates/ide-completion/src/lib.rs
index 4c84581..03ad32b 100644
--- a/crates/ide-completion/src/lib.rs
+++ b/crates/ide-completion/src/lib.rs
@@ -61,8 +61,11 @@ pub fn completions(
         }
     }
 
-    let completions = completions.into_inner();
-    Some(completions.into())
+    let mut completions: Vec<CompletionItem> = completions.into_inner().into();
+    if config.allow_snippets.is_none() {
+        completions.iter_mut().for_each(CompletionItem::drop_snippet);
+    }
+    Some(completions)
 }
 
 /// Resolves additional completion data at the position given.
-- 
2.43.0


From 5f73b49a012b6a1947272acb5393162c1c4b04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 16/28] fix: keep a dependency with an invalid manifest out of
 the package graph

Its manifest is not loaded into the VFS, so one broken Move.toml kept the
graph of every other package from being built.
---
 crates/project-model/src/aptos_package/load_from_fs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 1d4a5a0..954e02f 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -180,7 +180,6 @@ fn collect_deps_transitively(
                     "cannot collect deps due to invalid Move.toml file: {}",
                     current_dep.0
                 );
-                res.push(current_dep);
             }
         }
     }
-- 
2.43.0


From 019a584a3167be25bc526adf611798856d90c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 17/28] fix: report a setting that cannot be read

---
 crates/aptos-language-server/src/config/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/config/options.rs b/crates/aptos-language-server/src/config/options.rs
index 8320426..66f39d6 100644
--- a/crates/aptos-language-server/src/config/options.rs
+++ b/crates/aptos-language-server/src/config/options.rs
@@ -177,8 +177,7 @@ fn get_field_json<T: DeserializeOwned>(
             json.pointer_mut(&pointer)
                 .map(|it| serde_json::from_value(it.take()).map_err(|e| (e, pointer)))
         })
-        .find(Result::is_ok)
-        .and_then(|res| match res {
+        .find_map(|res| match res {
             Ok(it) => Some(it),
             Err((e, pointer)) => {
                 tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
-- 
2.43.0


From e715876af715539511c91b016b2331595cb80864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 18/28] fix: show the run lenses when the specification lenses
 are switched off

---
 crates/aptos-language-server/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/config.rs b/crates/aptos-language-server/src/config.rs
index 1b374dc..1305017 100644
--- a/crates/aptos-language-server/src/config.rs
+++ b/crates/aptos-language-server/src/config.rs
@@ -59,7 +59,7 @@ pub struct LensConfig {
 
 impl LensConfig {
     pub fn any(&self) -> bool {
-        self.specifications
+        self.runnables || self.specifications
     }
 
     pub fn none(&self) -> bool {
-- 
2.43.0


From 6cbe4da53b0e6e2c78c2b64de3b8258a1d74b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 19/28] fix: look syntax errors up under their own code when
 diagnostics are disabled

---
 crates/ide-diagnostics/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..0a18db5 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -12,7 +12,7 @@ pub mod handlers;
 mod tests;
 
 use crate::config::DiagnosticsConfig;
-use crate::diagnostic::Diagnostic;
+use crate::diagnostic::{Diagnostic, DiagnosticCode};
 use base_db::inputs::InternFileId;
 use base_db::source_db;
 use ide_db::RootDatabase;
@@ -58,7 +58,7 @@ pub fn syntax_diagnostics(
 ) -> Vec<Diagnostic> {
     let _p = tracing::info_span!("syntax_diagnostics").entered();
 
-    if !config.is_diagnostic_enabled("syntax_error") {
+    if !config.is_diagnostic_enabled(DiagnosticCode::SyntaxError.as_str()) {
         // if config.disabled.contains("syntax-error") {
         return Vec::new();
     }
-- 
2.43.0


From a5a119be3228a60a4580f3ecd19b904051256810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 20/28] fix: separate the source directory from the pattern in
 file watchers

---
 crates/aptos-language-server/src/reload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 5d9921c..8ca3c17 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -266,7 +266,7 @@ impl GlobalState {
                     folder_root
                         .source_dirs()
                         .iter()
-                        .map(|base| format!("{base}**/*.move"))
+                        .map(|base| format!("{base}/**/*.move"))
                         .collect::<Vec<_>>()
                 })
                 .map(|glob_pattern| FileSystemWatcher {
-- 
2.43.0


From 1848b748ff8a22383e90818991337ce9a6ed1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 21/28] fix: prepare a rename at the name under the cursor, not
 at its definition

---
 crates/ide/src/rename.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 3d5aac9..d2be8f1 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -22,13 +22,18 @@ pub(crate) fn prepare_rename(db: &RootDatabase, position: FilePosition) -> Renam
     let source_file = sema.parse(position.file_id);
     let syntax = source_file.syntax();
 
+    // the name under the cursor, the definition can be somewhere else
+    let name_like = sema
+        .find_namelike_at_offset(syntax, position.offset)
+        .ok_or_else(|| format_err!("No references found at position"))?;
+
     let named_element = find_definition(&sema, syntax, position)?;
-    let name = named_element
+    named_element
         .value
         .name()
         .ok_or_else(|| format_err!("No references found at position"))?;
 
-    Ok(RangeInfo::new(name.syntax().text_range(), ()))
+    Ok(RangeInfo::new(name_like.syntax().text_range(), ()))
 }
 
 pub(crate) fn rename(
-- 
2.43.0


From 7b23364ec92ec641e62f9e3dbf6e5658921cfc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 22/28] fix: refuse to rename an item to a label or an
 underscore

---
 crates/ide/src/rename.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index d2be8f1..08b2582 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -45,7 +45,9 @@ pub(crate) fn rename(
     let source_file = sema.parse(position.file_id);
     let syntax = source_file.syntax();
 
-    let _ = IdentifierKind::classify(new_name)?;
+    if IdentifierKind::classify(new_name)? != IdentifierKind::Ident {
+        bail!("Invalid name `{}`: not an identifier", new_name);
+    }
 
     let named_element = find_definition(&sema, syntax, position)?;
     let change = rename::rename_named_element(&sema, named_element, new_name)?;
-- 
2.43.0


From c2bbf0fef499509587826936fe6a186a44bb5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 23/28] fix: keep the field when a local bound by a shorthand
 pattern is renamed

---
 crates/ide-db/src/rename.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 6dc0581..14d55bc 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -186,8 +186,15 @@ fn source_edit_from_name_ref(
 fn source_edit_from_def(named_element: ast::NamedElement, new_name: &str) -> Result<TextEdit> {
     let mut edit = TextEdit::builder();
 
-    let old_name_range = named_element.name().unwrap().syntax().text_range();
-    edit.replace(old_name_range, new_name.to_string());
+    let old_name = named_element.name().unwrap();
+    let old_name_range = old_name.syntax().text_range();
+    if ast::StructPatField::for_field_name(&old_name).is_some_and(|it| it.name_ref().is_none()) {
+        // Foo { field } -> Foo { field: new_name }
+        //            ^ insert `: new_name`
+        edit.insert(old_name_range.end(), format!(": {new_name}"));
+    } else {
+        edit.replace(old_name_range, new_name.to_string());
+    }
     Ok(edit.finish())
 }
 
-- 
2.43.0


From d64a0a27459d664533e8004b120072c0dbe1a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 24/28] fix: search the whole function and the whole loop for
 uses of their variables

---
 crates/ide-db/src/search.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 18bec57..44ff71f 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -134,9 +134,8 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
         IdentPatOwner::Param(param) => {
             let fun = param.any_fun()?;
             let mut search_scope = SearchScope::empty();
-            if let Some(block_expr) = fun.block_expr() {
-                search_scope.add_range(file_id, block_expr.syntax().text_range());
-            }
+            // not only the body, the proof of a lemma uses its parameters too
+            search_scope.add_range(file_id, fun.syntax().text_range());
             for item_spec_loc in item_specs::get_item_specs_for_fun(db, fun.in_file(file_id).loc()) {
                 search_scope.add_file_range(item_spec_loc.file_range());
             }
@@ -153,9 +152,9 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
             Some(SearchScope::from_file_range(fun.syntax().file_range()))
         }
         IdentPatOwner::ForCondition(for_condition) => {
-            let for_body_expr = for_condition.for_expr().loop_body_expr()?;
+            // not only the body, the spec block of the condition uses the variable too
             Some(SearchScope::from_file_range(
-                for_body_expr.in_file(file_id).file_range(),
+                for_condition.for_expr().in_file(file_id).file_range(),
             ))
         }
         IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(
-- 
2.43.0


From a57c61a945d134ad16413027527126a4ba8f1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 25/28] fix: find constants and variants used as patterns

---
 crates/ide-db/src/rename.rs |  4 +++-
 crates/ide-db/src/search.rs | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 14d55bc..b7ed76f 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -97,7 +97,9 @@ fn source_edit_from_name(
     name: &ast::Name,
     new_name: &dyn fmt::Display,
 ) -> bool {
-    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name) {
+    if let Some(struct_pat_field) =
+        ast::StructPatField::for_field_name(name).filter(|it| it.name_ref().is_none())
+    {
         let ident_pat = struct_pat_field.ident_pat().unwrap();
         // Foo { field } -> Foo { new_name: field }
         //      ^ insert `new_name: `
diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 44ff71f..35fd371 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -494,6 +494,16 @@ impl<'a> FindUsages<'a> {
                 };
                 sink(ident_pat.file_id, reference)
             }
+            Some(NameClass::ConstReference(Definition::NamedItem(_, named_item)))
+                if self.named_item == named_item =>
+            {
+                let FileRange { file_id, range } = self.sema.file_range(name.syntax());
+                let reference = FileReference {
+                    range,
+                    name: FileReferenceNode::Name(name.clone()),
+                };
+                sink(file_id, reference)
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 6b5d9aefe95e679a2d4d6e17f275feb837830d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:08 +0000
Subject: [PATCH 26/28] fix: search all packages for uses of a schema field

---
 crates/ide-db/src/search.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 35fd371..d7e0992 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -160,6 +160,8 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
         IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(
             match_arm.in_file(file_id).file_range(),
         )),
+        // schemas can be included in other modules
+        IdentPatOwner::SchemaField(_) => None,
         _ => Some(SearchScope::from_module_and_module_spec(db, module)),
     }
 }
-- 
2.43.0


From 5fd89f3cde5d39c7aec797186dc76cee7f86a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 27/28] fix: search all packages for uses of a field

---
 crates/ide-db/src/search.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index d7e0992..52edca0 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -116,13 +116,7 @@ pub fn item_search_scope(db: &RootDatabase, named_item: &InFile<ast::NamedElemen
         }
     }
 
-    // accessible only in the module it was defined in (and in specs)
-    if let Some(named_field) = named_item.cast_into_ref::<ast::NamedField>() {
-        if let Some(containing_module) = named_field.and_then(|it| it.syntax().containing_module()) {
-            return SearchScope::from_module_and_module_spec(db, containing_module);
-        }
-    }
-
+    // fields are accessible in other modules too, in specs and if the struct is public
     SearchScope::from_reverse_dependencies(db, package_id)
 }
 
-- 
2.43.0


From d7922d9d71f38078c7b90711f158689e5acd01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 28/28] fix: find references at shorthands, constants in
 patterns and parameters of item specs

---
 crates/ide/src/references.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index 8d098d9..e2d0d9c 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -79,18 +79,17 @@ pub(crate) fn find_def_at_offset(
 
     let name_like = token.parent()?.cast::<ast::NameLike>()?;
     match name_like {
-        ast::NameLike::NameRef(name_ref) => {
-            match NameRefClass::classify(sema, &name_ref)? {
-                NameRefClass::Definition(Definition::NamedItem(_, named_item)) => Some(named_item),
-                // NameRefClass::FieldShorthand {
-                //     ident_pat,
-                //     named_field,
-                // } => Some(ident_pat.named_element()),
-                _ => None,
-            }
-        }
+        ast::NameLike::NameRef(name_ref) => match NameRefClass::classify(sema, &name_ref)? {
+            NameRefClass::Definition(Definition::NamedItem(_, named_item)) => Some(named_item),
+            NameRefClass::FieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),
+            _ => None,
+        },
         ast::NameLike::Name(name) => match NameClass::classify(sema, name)? {
-            NameClass::Definition(Definition::NamedItem(_, named_item)) => Some(named_item),
+            NameClass::Definition(Definition::NamedItem(_, named_item))
+            | NameClass::ConstReference(Definition::NamedItem(_, named_item)) => Some(named_item),
+            NameClass::ItemSpecFunctionParam { fun_param_ident_pat, .. } => {
+                Some(fun_param_ident_pat.map_into())
+            }
             NameClass::PatFieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),
             _ => None,
         },
-- 
2.43.0

