import sys; sys.path.insert(0,'/verif/tools')
from mut import run
R='crates/ide/src/references.rs'; H='crates/ide/src/highlight_related.rs'; S='crates/ide-db/src/search.rs'; N='crates/ide-db/src/rename.rs'; I='crates/ide/src/rename.rs'; HD='crates/lang/src/hir_db.rs'
def b(i,l,*e): run(i,list(e),l,'bug')
def o(i,l,*e): run(i,list(e),l,'ok')
b('D10','refs unique by start',(R,'refs.into_iter().map(|file_ref| file_ref.range).unique().collect()','refs.into_iter().map(|file_ref| file_ref.range).unique_by(|it| it.len()).collect()'))
b('D10','refs scope',(R,'.set_scope(search_scope)','.set_scope(Some(search_scope.unwrap_or_else(|| SearchScope::from_single_file(position.file_id))))'))
b('D10','hl other file',(H,'SearchScope::from_single_file(file_id)','SearchScope::from_single_file(def_file)'),(H,'    let usages = search','    let def_file = def.file_id;\n    let usages = search'))
b('D10','def at right only',(R,'        .token_at_offset(offset)\n        .find(|t| matches!(t.kind(), IDENT | INT_NUMBER | QUOTE_IDENT))?','        .token_at_offset(offset)\n        .right_biased()\n        .filter(|t| matches!(t.kind(), IDENT | INT_NUMBER | QUOTE_IDENT))?'))
b('D10','shorthand named field',(R,'NameClass::PatFieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),','NameClass::PatFieldShorthand { named_field, .. } => Some(named_field.map_into()),'))
b('D10','intersect swap',(S,'let right_ranges = large.get(file_id)?;','let right_ranges = large.get(file_id)?;\n                if left_ranges.is_none() { return None; }'))
b('D10','intersect none',(S,'(None, Some(r)) => Some(r),','(None, Some(_)) => None,'))
b('D10','contains',(S,'it.contains_inclusive(offset)','it.contains(offset) && it.end() != offset + TextSize::of("xx")'))
b('D10','name of alias',(S,'let name = self.named_item.value.name();','let name = self.named_item.value.name().filter(|it| it.as_string().len() > 1);'))
b('D10','pkg files',(S,'let file_ids = hir_db::source_file_ids_in_package(db, rev_dep);','let file_ids = hir_db::source_file_ids_in_package(db, of);'))
b('D10','module spec file',(S,'entries.push((module_spec.file_id, None));','entries.push((module.file_id, None));'))
b('D10','specs for',(S,'fun.in_file(file_id).loc())','fun.clone().in_file(file_id).loc()).into_iter().take(1)'))
b('D10','find map',(S,'let tree = LazyCell::new(move || sema.parse(file_id).syntax().clone());','let def_file = self.named_item.file_id;\n            let tree = LazyCell::new(move || sema.parse(def_file).syntax().clone());'))
b('D10','param any fun',(S,'for_condition.for_expr().in_file(file_id).file_range()','for_condition.for_expr().block_expr().unwrap().in_file(file_id).file_range()'))
b('D04','rename refuses keyword',(N,'SyntaxKind::IDENT => Ok(IdentifierKind::Ident),','SyntaxKind::IDENT | SyntaxKind::INT_NUMBER => Ok(IdentifierKind::Ident),'))
b('D04','builtin only',(N,'    if sema.is_library(package_id) {','    if sema.is_library(package_id) && !sema.is_builtins_file(named_element.file_id) && new_name.len() > 3 {'))
o('D10','collect twice',(R,'''    let references: HashMap<FileId, Vec<TextRange>> = usages
        .into_iter()
        .map(|(file_id, refs)| {
            (
                file_id,
                refs.into_iter().map(|file_ref| file_ref.range).unique().collect(),
            )
        })
        .collect();
''','''    let mut references: HashMap<FileId, Vec<TextRange>> = HashMap::new();
    for (file_id, refs) in usages {
        let ranges = refs.into_iter().map(|it| it.range).unique().collect();
        references.insert(file_id, ranges);
    }
'''))
o('D10','helper refs',(R,'                refs.into_iter().map(|file_ref| file_ref.range).unique().collect(),','                unique_ranges(refs),'),(R,'pub(crate) fn find_def_at_offset(','fn unique_ranges(refs: Vec<search::FileReference>) -> Vec<TextRange> {\n    refs.into_iter().map(|it| it.range).unique().collect()\n}\n\npub(crate) fn find_def_at_offset('))
o('D10','hl bool',(H,'''    if res.is_empty() {
        None
    } else {
        Some(res.into_iter().collect())
    }''','''    (!res.is_empty()).then(|| res.into_iter().collect())'''))
o('D10','hl loop',(H,'    res.extend(usages.iter().map(|it| it.range));','    for usage in &usages {\n        res.insert(usage.range);\n    }'))
o('D10','kinds helper',(R,'.find(|t| matches!(t.kind(), IDENT | INT_NUMBER | QUOTE_IDENT))?','.find(|t| t.kind() == IDENT || t.kind() == INT_NUMBER || t.kind() == QUOTE_IDENT)?'))
o('D10','boundary vars',(S,'''            if text[..idx]
                .chars()
                .next_back()
                .is_some_and(|ch| matches!(ch, 'A'..='Z' | 'a'..='z' | '_'))
                || text[idx + finder.needle().len()..]
                    .chars()
                    .next()
                    .is_some_and(|ch| matches!(ch, 'A'..='Z' | 'a'..='z' | '_' | '0'..='9'))
            {
                return None;
            }
            Some(offset)''','''            let before = text[..idx].chars().next_back();
            let after = text[idx + finder.needle().len()..].chars().next();
            let inside_word = before.is_some_and(|ch| ch.is_ascii_alphabetic() || ch == '_')
                || after.is_some_and(|ch| ch.is_ascii_alphanumeric() || ch == '_');
            (!inside_word).then_some(offset)'''))
o('D10','outer helper',(S,'''                for name_like in nodes_at_offset.filter_map(ast::NameLike::cast) {
                    if match name_like {
                        ast::NameLike::NameRef(name_ref) => self.found_name_ref(&name_ref, sink),
                        ast::NameLike::Name(name) => self.found_name(&name, sink),
                    } {
                        return;
                    }
                }''','''                for name_like in nodes_at_offset.filter_map(ast::NameLike::cast) {
                    if self.found_name_like(name_like, sink) {
                        return;
                    }
                }'''),(S,'    fn found_name_ref(\n','    fn found_name_like(\n        &self,\n        name_like: ast::NameLike,\n        sink: &mut dyn FnMut(FileId, FileReference) -> bool,\n    ) -> bool {\n        match name_like {\n            ast::NameLike::NameRef(name_ref) => self.found_name_ref(&name_ref, sink),\n            ast::NameLike::Name(name) => self.found_name(&name, sink),\n        }\n    }\n\n    fn found_name_ref(\n'))
o('D10','scope fn',(S,'''        let search_scope = {
            let base = item_search_scope(sema.db, &self.named_item);
            match &self.scope {
                None => base,
                Some(scope) => base.intersect(scope),
            }
        };
''','''        let mut search_scope = item_search_scope(sema.db, &self.named_item);
        if let Some(scope) = &self.scope {
            search_scope = search_scope.intersect(scope);
        }
'''))
o('D10','file reference new',(S,'''            Some(NameRefClass::FieldShorthand { ident_pat, named_field })
                if self.named_item == ident_pat.clone().map_into()
                    || self.named_item == named_field.clone().map_into() =>
            {
                let FileRange { file_id, range } = self.sema.file_range(name_ref.syntax());
                let reference = FileReference {
                    range,
                    name: FileReferenceNode::NameRef(name_ref.clone()),
                };
                sink(file_id, reference)
            }''','''            Some(NameRefClass::FieldShorthand { ident_pat, named_field }) => {
                let is_local = self.named_item == ident_pat.map_into();
                if is_local || self.named_item == named_field.map_into() {
                    let FileRange { file_id, range } = self.sema.file_range(name_ref.syntax());
                    let name = FileReferenceNode::NameRef(name_ref.clone());
                    sink(file_id, FileReference { range, name })
                } else {
                    false
                }
            }'''))
o('D04','edits fold',(N,'''    for (file_id, references) in usages.iter() {
        let text_edit = source_edit_from_references(references, named_element.value.clone(), new_name);
        source_change.insert_source_edit(file_id, text_edit);
    }
''','''    for (file_id, references) in usages.iter() {
        source_change.insert_source_edit(
            file_id,
            source_edit_from_references(references, named_element.value.clone(), new_name),
        );
    }
'''))
o('D04','shorthand match',(N,'''                    if &field_name_ref == name_ref && expr.syntax().text().to_string() == new_name {''','''                    let becomes_shorthand = expr.syntax().text().to_string() == new_name;
                    if becomes_shorthand && &field_name_ref == name_ref {'''))
o('D04','insert pos',(N,'''                        let offset = name_ref.syntax().text_range().start();
                        edit.insert(offset, format!("{new_name}: "));
                        return true;''','''                        edit.insert(name_ref.syntax().text_range().start(), format!("{}: ", new_name));
                        return true;'''))
o('D04','refuse fn',(N,'''    if sema.is_builtins_file(named_element.file_id) {
        bail!("Cannot rename a builtin item.");
    }
    let package_id = sema.db.file_package_id(named_element.file_id);
    if sema.is_library(package_id) {
        bail!("Cannot rename a non-local definition");
    }
''','''    check_can_rename(sema, named_element.file_id)?;
'''),(N,'pub fn source_edit_from_references(','fn check_can_rename(sema: &Semantics<\'_, RootDatabase>, file_id: FileId) -> Result<()> {\n    if sema.is_builtins_file(file_id) {\n        bail!("Cannot rename a builtin item.");\n    }\n    if sema.is_library(sema.db.file_package_id(file_id)) {\n        bail!("Cannot rename a non-local definition");\n    }\n    Ok(())\n}\n\npub fn source_edit_from_references('),(N,'use syntax::files::InFile;','use syntax::files::InFile;\nuse vfs::FileId;'))
o('D04','def from nameclass',(I,'''                NameClass::PatFieldShorthand { ident_pat, .. } => ident_pat.map(|it| it.into()),
''','''                NameClass::PatFieldShorthand { ident_pat, named_field: _ } => ident_pat.map_into(),
'''))
