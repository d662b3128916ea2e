S='crates/ide-db/src/search.rs'; N='crates/ide-db/src/rename.rs'; I='crates/ide/src/rename.rs'; H='crates/lang/src/hir_db.rs'
def d(id,p,edits,needs,breaks): return dict(id=id,property=p,libs=['usages'],files={},edits=edits,needs=needs,breaks=breaks)
SEEDS=[
 d('d10-after-a-bracket','D10',[(S,"'a'..='z' | '_' | '0'..='9'))","'a'..='z' | '_' | '0'..='9' | '<'))")],'a use with type arguments, `run<u8>()`','the use is not found, and a rename leaves it'),
 d('d10-left-token','D10',[(S,'            .find(|it| it.text() == name)\n            .into_iter()','            .left_biased()\n            .into_iter()')],'a use right after another token, `(run)`','the token on the left is looked at instead: the use is not found'),
 d('d10-direct-dependents','D10',[(H,'if transitive_deps.contains(&of) {','if transitive_deps.first() == Some(&of) {')],'a package which depends on the definition through another one, or lists it second','its files are not searched'),
 d('d10-range-replaced','D10',[(S,'                if let Some(ranges) = val {\n                    ranges.push(text_range);\n                }','                *val = Some(vec![text_range]);')],'a parameter of a function with an item spec in the same file','only the last range is searched: the uses in the function itself are not found'),
 d('d10-spec-only-scope','D10',[(S,'            entries.push((module_spec.file_id, None));','            entries = vec![(module_spec.file_id, None)];')],'a quantifier variable in a module with a module spec in another file','only the spec is searched, not the module'),
 d('d04-shorthand-after','D04',[(N,'let offset = name_ref.syntax().text_range().start();','let offset = name_ref.syntax().text_range().end();')],'a field used by a shorthand, `S { f }`','the rename writes `fnew: `'),
 d('d04-field-kept','D04',[(N,'if &field_name_ref == name_ref && expr.syntax().text().to_string() == new_name {','if &field_name_ref == name_ref || expr.syntax().text().to_string() == new_name {')],'a field initialized by something other than the new name, `S { f: p }`','the rename deletes the field name'),
 d('d04-library-spec','D04',[(N,'    if sema.is_library(package_id) {','    if sema.is_library(package_id) && sema.db.file_package_id(named_element.file_id) != package_id {')],'renaming a function of a dependency from a use of it','the sources of the dependency are changed'),
 d('d04-definition-where-used','D04',[(N,'    source_change.insert_source_edit(file_id, edit);\n\n    Ok(source_change)','    source_change.insert_source_edit(usages.iter().map(|it| it.0).min().unwrap_or(file_id), edit);\n\n    Ok(source_change)')],'a definition used only in other files','the edit of the definition goes to another file'),
 d('d04-alias-renamed','D04',[(I,'.is_some_and(|it| it.as_string() != name_ref.text())','.is_some_and(|it| it.as_string().is_empty())')],'a rename at a use of an alias','the aliased item is renamed, not the alias'),
 d('d04-shorthand-local','D04',[(I,'NameRefClass::FieldShorthand { ident_pat, named_field: _ } => {\n                    ident_pat.map','NameRefClass::FieldShorthand { ident_pat: _, named_field } => {\n                    named_field.map')],'a rename started at a shorthand `S { f }`','the field is renamed where the local was asked for'),
]
