import sys; sys.path.insert(0,'/verif/tools')
from mut import run
F='crates/ide-db/src/search.rs'; H='crates/lang/src/hir_db.rs'
def b(l,*e): run('D10',[(F,)+x for x in e],l,'bug')
def o(l,*e): run('D10',[(F,)+x for x in e],l,'ok')
b('param body',('search_scope.add_range(file_id, fun.syntax().text_range());','search_scope.add_range(file_id, fun.block_expr().map(|it| it.syntax().text_range()).unwrap_or(fun.syntax().text_range()));'))
b('no specs',('            for item_spec_loc in item_specs','            for item_spec_loc in Vec::<SyntaxLoc>::new() { search_scope.add_file_range(item_spec_loc.file_range()); }\n            for item_spec_loc in Vec::new().into_iter().chain(None) { } if false { for item_spec_loc in item_specs'),('                search_scope.add_file_range(item_spec_loc.file_range());\n            }','                search_scope.add_file_range(item_spec_loc.file_range());\n            }}'))
b('lambda body',('let lambda_expr = lambda_param.lambda_expr();','let lambda_expr = lambda_param.lambda_expr().body_expr().unwrap();'))
b('arm expr',('match_arm.in_file(file_id).file_range()','match_arm.expr().unwrap().in_file(file_id).file_range()'))
b('schema module',('        IdentPatOwner::SchemaField(_) => None,\n',''))
b('single file module',('let mut entries = vec![(module.file_id, None)];\n        for module_spec in module.related_module_specs(db) {\n            entries.push((module_spec.file_id, None));\n        }','let entries = vec![(module.file_id, None)];'))
b('package only',('SearchScope::from_reverse_dependencies(db, package_id)','SearchScope::from_package(db, package_id)'))
b('let arm merged',('IdentPatOwner::LetStmt(_) => {\n            let fun = ident_pat.and_then(|it| it.syntax().containing_function())?;\n            Some(SearchScope::from_file_range(fun.syntax().file_range()))','IdentPatOwner::LetStmt(let_stmt) => {\n            Some(SearchScope::from_file_range(let_stmt.in_file(file_id).file_range()))'))
b('add_range overwrite',('                if let Some(ranges) = val {\n                    ranges.push(text_range);\n                }','                *val = Some(vec![text_range]);'))
b('add_range drop',('                    ranges.push(text_range);\n','                    ranges.truncate(1);\n'))
b('digit before',("'A'..='Z' | 'a'..='z' | '_'))\n                || text","'A'..='Z' | 'a'..='z' | '_' | ':'))\n                || text"))
b('after paren',("'a'..='z' | '_' | '0'..='9'))","'a'..='z' | '_' | '0'..='9' | '<'))"))
b('alphanumeric ok after',("ch, 'A'..='Z' | 'a'..='z' | '_' | '0'..='9')","ch, '!'..='~')"))
b('contains',('.any(|it| it.contains_inclusive(offset))','.all(|it| it.contains_inclusive(offset))\n                && false'))
b('first token',('            .find(|it| it.text() == name)\n            .into_iter()','            .left_biased()\n            .into_iter()'))
b('return early',('                    } {\n                        return;\n                    }','                    } {\n                        continue;\n                    }'))
b('stop after one',('                    if match name_like {','                    if match name_like {\n                        ast::NameLike::NameRef(name_ref) if search_scope.entries.len() > 9 => return,'))
b('break instead',('self.found_name(&name, sink),\n                    } {\n                        return;','self.found_name(&name, sink) || true,\n                    } {\n                        return;'))
b('item eq dropped',('if self.named_item == ident_pat.clone().map_into()\n                    || self.named_item == named_field.clone().map_into() =>','if self.named_item == named_field.clone().map_into() =>'))
b('wrong file',('sink(spec_ident_pat.file_id, reference)','sink(fun_param_ident_pat.file_id, reference)'))
b('fetch true',('res.references.entry(file_id).or_default().push(reference);\n            false','res.references.entry(file_id).or_default().push(reference);\n            true'))
b('atleast',('            found = true;\n            true','            true'))
b('whole file none',('.unwrap_or_else(|| vec![TextRange::up_to(TextSize::of(&*text))])','.unwrap_or_default()'))
run('D10',[(H,'    rev_deps.push(of);\n','')],'own package','bug')
run('D10',[(H,'if transitive_deps.contains(&of) {','if transitive_deps.contains(&of) && transitive_deps.len() > 1 {')],'ok-ish: own package is always there, len>1','bug')
run('D10',[(H,'if transitive_deps.contains(&of) {','if transitive_deps.first() == Some(&of) {')],'first','bug')
o('const helper',("            if text[..idx]\n                .chars()\n                .next_back()\n                .is_some_and(|ch| matches!(ch, 'A'..='Z' | 'a'..='z' | '_'))","            fn word(ch: char) -> bool { ch.is_ascii_alphabetic() || ch == '_' }\n            if text[..idx]\n                .chars()\n                .next_back()\n                .is_some_and(word)"))
o('right biased',('            .find(|it| it.text() == name)\n            .into_iter()','            .right_biased()\n            .filter(|it| it.text() == name)\n            .into_iter()'))
o('for to ext',('        for module_spec in module.related_module_specs(db) {\n            entries.push((module_spec.file_id, None));\n        }','        entries.extend(module.related_module_specs(db).into_iter().map(|it| (it.file_id, None)));'))
o('let else',('        let name = match &name {\n            Some(s) => s.as_string(),\n            None => return,\n        };','        let Some(name) = name.map(|it| it.as_string()) else { return; };'))
o('reference helper',('''                let FileRange { file_id, range } = self.sema.file_range(name.syntax());
                let reference = FileReference {
                    range,
                    name: FileReferenceNode::Name(name.clone()),
                };
                sink(file_id, reference)''','''                let fr = self.sema.file_range(name.syntax());
                sink(fr.file_id, FileReference { range: fr.range, name: FileReferenceNode::Name(name.clone()) })'''))
o('add_range entry',('''            .and_modify(|val| {
                if let Some(ranges) = val {
                    ranges.push(text_range);
                }
            })
            .or_insert(Some(vec![text_range]));''','''            .and_modify(|val| match val {
                Some(ranges) => ranges.push(text_range),
                None => (),
            })
            .or_insert_with(|| Some(vec![text_range]));'''))
o('match found',('''                    if match name_like {
                        ast::NameLike::NameRef(name_ref) => self.found_name_ref(&name_ref, sink),
                        ast::NameLike::Name(name) => self.found_name(&name, sink),
                    } {
                        return;
                    }''','''                    let stop = match name_like {
                        ast::NameLike::NameRef(name_ref) => self.found_name_ref(&name_ref, sink),
                        ast::NameLike::Name(name) => self.found_name(&name, sink),
                    };
                    if stop {
                        return;
                    }'''))
o('scope helper',('IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(\n            match_arm.in_file(file_id).file_range(),\n        )),','IdentPatOwner::MatchArm(match_arm) => {\n            let range = FileRange { file_id, range: match_arm.syntax().text_range() };\n            Some(SearchScope::from_file_range(range))\n        }'))
