import sys; sys.path.insert(0,'/verif/tools')
from mut import run
D='crates/ide-db/src/defs.rs'
def b(l,*e): run('D10',[(D,)+x for x in e],l,'bug')
def o(l,*e): run('D10',[(D,)+x for x in e],l,'ok')
b('no variant',('CONST | VARIANT)','CONST)'))
b('swap shorthand',('let (named_field, ident_pat) = into_field_shorthand_items','let (ident_pat0, named_field) = into_field_shorthand_items'),('Some(NameRefClass::FieldShorthand { ident_pat, named_field })\n                }','Some(NameRefClass::FieldShorthand { ident_pat: named_field.map_into(), named_field: ident_pat0.map_into() })\n                }'))
b('lambda param',('parent_is::<ast::Param>()','parent_is::<ast::LambdaParam>()'))
b('shorthand named',('struct_pat_field.name_ref().is_none()','struct_pat_field.name_ref().is_some()'))
b('local first',('let local_def = Definition::named_item(ident_pat);','let local_def = Definition::named_item(ident_pat.clone());'),('            let pat_parent = ident_pat.value.syntax().parent();','            if ident_pat.value.name().is_some() { return Some(NameClass::Definition(Definition::named_item(ident_pat))); }\n            let pat_parent = ident_pat.value.syntax().parent();'))
b('builtin first',('let res = sema.resolve(path).single_or_none();','let res = sema.resolve(path).single_or_none();\n            if BUILTIN_TYPE_IDENTS.contains(name_ref.as_string().as_str()) { return Some(NameRefClass::Definition(Definition::BuiltinType)); }'))
b('struct instead of field',('sema.resolve_to_element::<ast::NamedField>(sema.wrap_node_infile(struct_field))?','sema.resolve_to_element::<ast::NamedField>(sema.wrap_node_infile(struct_field)).filter(|it| it.value.ty().is_some())?'))
b('not for specs',('        let reference = ref_parent.cast::<ast::ReferenceElement>()?;','        let reference = ref_parent.cast::<ast::ReferenceElement>()?;\n        if reference.syntax().ancestors().count() > 9 { return None; }'))
o('match kind',('            if matches!(resolved_ident_pat.kind(), CONST | VARIANT) {\n                let defn = Definition::named_item(resolved_ident_pat);\n                return Some(NameClass::ConstReference(defn));\n            }','            match resolved_ident_pat.kind() {\n                CONST | VARIANT => return Some(NameClass::ConstReference(Definition::named_item(resolved_ident_pat))),\n                _ => (),\n            }'))
o('eq kind',('matches!(resolved_ident_pat.kind(), CONST | VARIANT)','resolved_ident_pat.kind() == CONST || resolved_ident_pat.kind() == VARIANT'))
o('let chain',('            if let Some(fun_ident_pat) = resolved_ident_pat.cast_into_ref::<ast::IdentPat>() {\n                if fun_ident_pat.value.syntax().parent_is::<ast::Param>() {\n                    return Some(NameClass::ItemSpecFunctionParam {\n                        spec_ident_pat: ident_pat,\n                        fun_param_ident_pat: fun_ident_pat,\n                    });\n                }\n            }','            if let Some(fun_param_ident_pat) = resolved_ident_pat.cast_into_ref::<ast::IdentPat>()\n                && fun_param_ident_pat.value.syntax().parent_is::<ast::Param>()\n            {\n                return Some(NameClass::ItemSpecFunctionParam { spec_ident_pat: ident_pat, fun_param_ident_pat });\n            }'))
o('early out',('        if let Some(resolved_ident_pat) = sema.resolve_to_element::<ast::NamedElement>(ident_pat.clone())\n        {','        let resolved = sema.resolve_to_element::<ast::NamedElement>(ident_pat.clone());\n        if let Some(resolved_ident_pat) = resolved {'))
o('match none',('''            let res = sema.resolve(path).single_or_none();
            return match res {
                Some(entry) => {''','''            return match sema.resolve(path).single_or_none() {
                Some(entry) => {'''))
o('and_then',('''        let named_item = sema
            .resolve(reference)
            .single_or_none()?
            .node_loc
            .to_ast::<ast::NamedElement>(sema.db)?;
''','''        let entry = sema.resolve(reference).single_or_none()?;
        let named_item = entry.node_loc.to_ast::<ast::NamedElement>(sema.db)?;
'''))
o('pat field helper',('''            let pat_parent = ident_pat.value.syntax().parent();
            if let Some(struct_pat_field) = pat_parent.and_then(|it| it.cast::<ast::StructPatField>()) {
                if struct_pat_field.name_ref().is_none() {
                    if let Some(named_field) = resolved_ident_pat.cast_into_ref::<ast::NamedField>() {
                        return Some(NameClass::PatFieldShorthand { ident_pat, named_field });
                    }
                }
            }''','''            let is_shorthand = ident_pat
                .value
                .syntax()
                .parent()
                .and_then(|it| it.cast::<ast::StructPatField>())
                .is_some_and(|it| it.name_ref().is_none());
            if is_shorthand && let Some(named_field) = resolved_ident_pat.cast_into_ref::<ast::NamedField>() {
                return Some(NameClass::PatFieldShorthand { ident_pat, named_field });
            }'''))
