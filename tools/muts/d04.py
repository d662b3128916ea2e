import sys; sys.path.insert(0,'/verif/tools')
from mut import run
F='crates/ide-db/src/rename.rs'; I='crates/ide/src/rename.rs'
def b(l,*e): run('D04',[(F,)+x for x in e],l,'bug')
def o(l,*e): run('D04',[(F,)+x for x in e],l,'ok')
def bi(l,*e): run('D04',[(I,)+x for x in e],l,'bug')
def oi(l,*e): run('D04',[(I,)+x for x in e],l,'ok')
b('no builtin check',('    if sema.is_builtins_file(named_element.file_id) {\n        bail!("Cannot rename a builtin item.");\n    }\n',''))
b('library ok',('if sema.is_library(package_id) {','if sema.is_library(package_id) && named_element.value.name().is_none() {'))
b('only own file',('    for (file_id, references) in usages.iter() {','    for (file_id, references) in usages.iter().filter(|(id, _)| *id == named_element.file_id) {'))
b('def in wrong file',('source_change.insert_source_edit(file_id, edit);','source_change.insert_source_edit(usages.iter().next().map(|it| it.0).unwrap_or(file_id), edit);'))
b('def dropped',('    let edit = source_edit_from_def(named_element, new_name)?;\n    source_change.insert_source_edit(file_id, edit);','    if usages.is_empty() {\n    let edit = source_edit_from_def(named_element, new_name)?;\n    source_change.insert_source_edit(file_id, edit);\n    }'))
b('swap field',('let offset = name_ref.syntax().text_range().start();','let offset = name_ref.syntax().text_range().end();'))
b('swap text',('edit.insert(offset, format!(": {new_name}"));','edit.insert(offset, format!("{new_name}: "));'))
b('no ident',('                    ast::NamedElement::IdentPat(_) => {','                    ast::NamedElement::IdentPat(it) if it.name().is_none() => {'))
b('short without eq',('if &field_name_ref == name_ref && expr.syntax()','if expr.syntax()'))
b('short without text',('if &field_name_ref == name_ref && expr.syntax().text().to_string() == new_name {','if &field_name_ref == name_ref {'))
b('pat without eq',('(Some(field_name), Some(ident_pat)) if field_name == *name_ref => {','(Some(field_name), Some(ident_pat)) => {'))
b('name before',("edit.insert(ident_pat.syntax().text_range().start(), format!(\"{new_name}: \"));","edit.insert(ident_pat.syntax().text_range().start(), format!(\": {new_name}\"));"))
b('no emit',('            edit.replace(range, new_name.to_string());','            if range.len() > 0.into() && references.len() < 100 { edit.replace(range, new_name.to_string()); }'))
b('double',('        edit.insert(ident_pat.syntax().text_range().start(), format!("{new_name}: "));\n        return true;','        edit.insert(ident_pat.syntax().text_range().start(), format!("{new_name}: "));\n        return false;'))
b('def shorthand',('is_some_and(|it| it.name_ref().is_none())','is_some_and(|it| it.name_ref().is_some())'))
b('classify',('SyntaxKind::QUOTE_IDENT => Ok(IdentifierKind::Label)','SyntaxKind::QUOTE_IDENT => Ok(IdentifierKind::Ident)'))
bi('range of def',('name_like.syntax().text_range(), ()','named_element.value.syntax().text_range(), ()'))
bi('alias',('.is_some_and(|it| it.as_string() != name_ref.text())','.is_some_and(|it| it.as_string().is_empty())'))
bi('use alias',('.is_some_and(|it| ast::UseAlias::can_cast(it.kind())) =>','.is_some_and(|it| ast::UseSpeck::can_cast(it.kind())) =>'))
bi('fun param',('NameClass::ItemSpecFunctionParam { fun_param_ident_pat, .. } => {\n                    fun_param_ident_pat.map','NameClass::ItemSpecFunctionParam { spec_ident_pat, .. } => {\n                    spec_ident_pat.map'))
bi('pat field',('NameClass::PatFieldShorthand { ident_pat, .. } => ident_pat.map(|it| it.into())','NameClass::PatFieldShorthand { named_field, .. } => named_field.map(|it| it.into())'))
bi('field shorthand',('NameRefClass::FieldShorthand { ident_pat, named_field: _ } => {\n                    ident_pat.map','NameRefClass::FieldShorthand { ident_pat: _, named_field } => {\n                    named_field.map'))
bi('name check',('    if IdentifierKind::classify(new_name)? != IdentifierKind::Ident {','    if IdentifierKind::classify(new_name)? == IdentifierKind::Label {'))
bi('ignore',('    let change = rename::rename_named_element(&sema, named_element, new_name)?;','    let change = rename::rename_named_element(&sema, named_element, new_name).unwrap_or_default();'))
o('else if',('        if !has_emitted_edit {\n            edit.replace(range, new_name.to_string());\n        }','        if has_emitted_edit {\n            continue;\n        }\n        edit.replace(range, new_name.to_owned());'))
o('match pat',('    if let Some(struct_pat_field) =\n        ast::StructPatField::for_field_name(name).filter(|it| it.name_ref().is_none())\n    {','    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name)\n        && struct_pat_field.name_ref().is_none()\n    {'))
o('pat guard',('        match (field_name_ref, field_ident_pat) {\n            // field: rename\n            (Some(field_name), Some(ident_pat)) if field_name == *name_ref => {','        match (field_name_ref, field_ident_pat) {\n            // field: rename\n            (Some(field_name), Some(ident_pat)) if *name_ref == field_name => {'))
o('refuse together',('    let package_id = sema.db.file_package_id(named_element.file_id);\n    if sema.is_library(package_id) {','    let def_file = named_element.file_id;\n    if sema.is_library(sema.db.file_package_id(def_file)) {'))
o('def match',('    if ast::StructPatField::for_field_name(&old_name).is_some_and(|it| it.name_ref().is_none()) {','    let shorthand = match ast::StructPatField::for_field_name(&old_name) {\n        Some(field) => field.name_ref().is_none(),\n        None => false,\n    };\n    if shorthand {'))
oi('match kind',('    if IdentifierKind::classify(new_name)? != IdentifierKind::Ident {\n        bail!("Invalid name `{}`: not an identifier", new_name);\n    }','    match IdentifierKind::classify(new_name)? {\n        IdentifierKind::Ident => (),\n        _ => bail!("Invalid name `{}`: not an identifier", new_name),\n    }'))
oi('tail',('    let change = rename::rename_named_element(&sema, named_element, new_name)?;\n\n    Ok(change)','    rename::rename_named_element(&sema, named_element, new_name)'))
oi('alias eq',('''            if def
                .value
                .name()
                .is_some_and(|it| it.as_string() != name_ref.text())
            {
                bail!''','''            if let Some(def_name) = def.value.name()
                && def_name.as_string() != name_ref.text()
            {
                bail!'''))
