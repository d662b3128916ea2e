import sys; sys.path.insert(0,'/verif/tools')
from mut import run
F='crates/lang/src/nameres/is_visible.rs'; S='crates/lang/src/item_scope.rs'; V='crates/syntax/src/ast/visibility.rs'; N='crates/syntax/src/ast/node_ext/visibility.rs'
P='crates/ide-completion/src/completions/reference/paths.rs'; M='crates/ide-completion/src/completions/reference/method_or_field.rs'; A='crates/lang/src/types/inference/ast_walker.rs'; R='crates/lang/src/nameres/path_resolution.rs'; H='crates/lang/src/hir_db.rs'
def b(f,l,*e): run('D09',[(f,)+x for x in e],l,'bug')
def o(f,l,*e): run('D09',[(f,)+x for x in e],l,'ok')
b(F,'friend first only',('                            return None;\n                        }\n                    }\n                }\n                Some(','                            return None;\n                        }\n                        break;\n                    }\n                }\n                Some('))
b(F,'friend unresolved stops',('                        else {\n                            continue;','                        else {\n                            break;'))
b(F,'friend path in context file',('friend_decl.path().opt_in_file(item_file_id)','friend_decl.path().opt_in_file(context_file_id)'))
b(F,'friends of the user',('let friend_decls = item_module.friend_decls();','let friend_decls = context_module.friend_decls();'),('if friend_module.value == context_module','if friend_module.value == item_module'))
b(F,'package ne',('db.file_package_id(context_file_id) == db.file_package_id(item_file_id)','db.file_package_id(item_file_id) == db.file_package_id(item_file_id)'))
b(F,'use test any ns',('context_item_scope.is_test() && item_ns == Ns::NAME','context_item_scope.is_test()'))
b(F,'use test not asked',('context_item_scope.is_test() && item_ns == Ns::NAME','item_ns == Ns::NAME'))
b(F,'builtin types',('FUN | CONST)\n        && item_module','FUN | CONST | STRUCT)\n        && item_module'))
b(F,'no adjustment',('item_scope = item_scope.shrink_scope(adjustment);','item_scope.shrink_scope(adjustment);'))
b(F,'verify everywhere',('if item_scope != ItemScope::Main {','if item_scope == ItemScope::Test {'))
b(F,'test sees verify',('if item_scope != context_item_scope {','if item_scope != context_item_scope && !context_item_scope.is_test() {'))
b(F,'module none eq',('item_module.is_some() && context_module.is_some() && item_module == context_module','item_module == context_module'))
b(F,'script any',('.is_some_and(|it| context_script == it)','.is_some()'))
b(F,'type anywhere',('if path_parent.kind() == PATH_TYPE {','if path_parent.kind() == PATH_TYPE || path_parent.kind() == PATH_EXPR {'))
b(F,'type path not root',('.map(|path| path.root_path())\n','.map(|path| path)\n'))
b(F,'default private',('.unwrap_or(Vis::Public);','.unwrap_or(Vis::Private);'))
b(F,'use private enum',('matches!(item_kind, MODULE | STRUCT | ENUM)','matches!(item_kind, MODULE | STRUCT)'))
b(F,'unknown visible',('        return Some(ItemInvisibleReason::Unknown);\n','        return None;\n'))
b(F,'msl item order',('    // we\'re in non-msl scope at this point, msl only items aren\'t accessible\n    if item.syntax().is_msl_only_item() {\n        return Some(ItemInvisibleReason::WrongItemScope {\n            item_scope: ItemScope::Verify,\n        });\n    }\n',''))
b(F,'attr parent only',('if context.ancestor_strict::<ast::AttrItem>().is_some() {\n        return None;\n    }\n',''))
b(F,'entries all',('it.invis_reason.is_none().then_some(it.scope_entry)','it.invis_reason.is_none_or(|r| r == ItemInvisibleReason::Unknown).then_some(it.scope_entry)'))
b(F,'restricted use private',('if visible_item.vis() != Vis::Private {','if visible_item.vis() == Vis::Public {'))
b(V,'script friend',('            return Vis::Public;\n        }\n        if let','            return Vis::Restricted(VisLevel::Friend);\n        }\n        if let'))
b(V,'friend only',('vis_modifier.is_public_friend() || vis_modifier.is_friend()','vis_modifier.is_public_friend()'))
b(V,'package only public',('vis_modifier.is_public_package() || vis_modifier.is_package()','vis_modifier.is_public_package()'))
b(V,'swapped',('return Vis::Restricted(VisLevel::Package);','return Vis::Restricted(VisLevel::Friend);'))
b(N,'tokens',('            && self.package_token().is_some()\n            && self.l_paren_token','            && self.script_token().is_some()\n            && self.l_paren_token'))
b(S,'covered kind',('SPEC_BLOCK_EXPR | LEMMA','SPEC_BLOCK_EXPR'))
b(S,'test attr',('atom_attr_items.contains("test_only") || atom_attr_items.contains("test")','atom_attr_items.contains("test_only")'))
b(S,'verify last',('return Some(ItemScope::Verify);\n    }\n    None','return Some(ItemScope::Test);\n    }\n    None'))
b(S,'pop any',('                    && last_scope_node == &node\n','                    && last_scope_node.kind() == node.kind()\n'))
b(S,'first scope',('scope_nodes.last().map(|(_, it)| *it)','scope_nodes.first().map(|(_, it)| *it)'))
b(S,'never pop',('                    scope_nodes.pop();\n','                    scope_nodes.last();\n'))
b(S,'own not pushed',('                        scope_nodes.push((node.clone(), explicit_item_scope));\n','                        if scope_nodes.is_empty() { scope_nodes.push((node.clone(), explicit_item_scope)); }\n'))
b(S,'shrink inverted',('        if self == ItemScope::Main {\n            return adjustment_scope;','        if self != ItemScope::Main {\n            return adjustment_scope;'))
b(S,'shrink always',('            return adjustment_scope;\n        }\n        self','            return adjustment_scope;\n        }\n        adjustment_scope'))
b(P,'unfiltered',('        .filter(|it| is_visible_in_context(ctx.db, it, original_start_at.clone()).is_none())\n        .collect','        .collect'))
b(P,'unfiltered import',('\n        .filter(|it| is_visible_in_context(ctx.db, it, original_start_at.clone()).is_none());',';'))
b(M,'unfiltered',('\n        .filter(|e| is_visible_in_context(ctx.db, e, original_token_ctx.clone()).is_none());',';'))
b(A,'unfiltered',('                .filter(|e| is_visible_in_context(self.ctx.db, e, vis_ctx.clone()).is_none())\n',''))
b(R,'unchecked',('.map(|e| check_if_visible(db, e, context_element.syntax()))','.map(|e| if e.scope_adjustment.is_some() { e.into_always_visible() } else { check_if_visible(db, e, context_element.syntax()) })'))
b(H,'default test',('        .cloned()\n        .unwrap_or(ItemScope::Main)\n}','        .cloned()\n        .unwrap_or(ItemScope::Test)\n}'))
# same behaviour
o(F,'match tuple',('''    if item_module.is_some() && context_module.is_some() && item_module == context_module {
        return None;
    }''','''    if let (Some(a), Some(b)) = (&item_module, &context_module)
        && a == b
    {
        return None;
    }'''))
o(F,'helper use',('''        if matches!(item_kind, MODULE | STRUCT | ENUM) {
            return None;
        }
''','''        let always_public = matches!(item_kind, MODULE | STRUCT | ENUM);
        if always_public {
            return None;
        }
'''))
o(F,'vis via match',('''        if let Some(visible_item) = opt_visible_item.clone() {
            if visible_item.vis() != Vis::Private {
                return None;
            }
        }
''','''        if opt_visible_item.as_ref().is_some_and(|it| it.vis() != Vis::Private) {
            return None;
        }
'''))
o(F,'merge scopes',('''    if item_scope != ItemScope::Main {
        // cannot be used everywhere, need to check for scope compatibility
        if item_scope != context_item_scope {
            return Some(ItemInvisibleReason::WrongItemScope { item_scope });
        }
    }
''','''    if item_scope != ItemScope::Main && item_scope != context_item_scope {
        return Some(ItemInvisibleReason::WrongItemScope { item_scope });
    }
'''))
o(F,'friend any',('''                    for friend_decl in friend_decls {
                        let friend_path = friend_decl.path().opt_in_file(item_file_id);
                        let Some(friend_module) = friend_path
                            .and_then(|path| nameres::resolve_no_inf_cast::<ast::Module>(db, path))
                        else {
                            continue;
                        };
                        if friend_module.value == context_module {
                            return None;
                        }
                    }
''','''                    let is_friend = friend_decls.into_iter().any(|decl| {
                        decl.path()
                            .opt_in_file(item_file_id)
                            .and_then(|path| nameres::resolve_no_inf_cast::<ast::Module>(db, path))
                            .is_some_and(|it| it.value == context_module)
                    });
                    if is_friend {
                        return None;
                    }
'''))
o(F,'package early',('''                if db.file_package_id(context_file_id) == db.file_package_id(item_file_id) {
                    None
                } else {
                    Some(ItemInvisibleReason::Private { vis })
                }
''','''                let same_package =
                    db.file_package_id(item_file_id) == db.file_package_id(context_file_id);
                (!same_package).then(|| ItemInvisibleReason::Private { vis })
'''))
o(F,'type map_or',('''        if let Some(path_parent) = opt_path_parent {
            if path_parent.kind() == PATH_TYPE {
                return None;
            }
        }
''','''        if opt_path_parent.is_some_and(|it| it.kind() == PATH_TYPE) {
            return None;
        }
'''))
o(F,'script and_then',('''    if let Some(context_script) = context.containing_script() {
        if item
            .syntax()
            .containing_script()
            .is_some_and(|it| context_script == it)
        {
            return None;
        }
    }
''','''    if let Some(context_script) = context.containing_script()
        && let Some(item_script) = item.syntax().containing_script()
        && item_script == context_script
    {
        return None;
    }
'''))
o(F,'entries loop',('''        self.entries()
            .filter_map(|it| it.invis_reason.is_none().then_some(it.scope_entry))
            .collect()
''','''        self.entries()
            .filter(|it| it.invis_reason.is_none())
            .map(|it| it.scope_entry)
            .collect()
'''))
o(F,'item scope expr',('''        let mut item_scope = hir_db::item_scope(db, item_loc);
        if let Some(adjustment) = scope_entry.scope_adjustment {
            item_scope = item_scope.shrink_scope(adjustment);
        }
        item_scope
''','''        let own_scope = hir_db::item_scope(db, item_loc);
        match scope_entry.scope_adjustment {
            Some(adjustment) => own_scope.shrink_scope(adjustment),
            None => own_scope,
        }
'''))
o(V,'match',('''        if vis_modifier.is_public_script() {
            // `public(script)` considered public
            return Vis::Public;
        }
        if let Some(fun) = ast::Fun::cast(self.syntax().clone()) {
            // `entry` considered public
            if fun.is_entry() {
                return Vis::Public;
            }
        }
        Vis::Public''','''        Vis::Public'''))
o(S,'attrs any',('''    if atom_attr_items.is_empty() {
        return None;
    }
''',''))
o(S,'test any of',('''    if atom_attr_items.contains("test_only") || atom_attr_items.contains("test") {''','''    if ["test", "test_only"].iter().any(|it| atom_attr_items.contains(*it)) {'''))
o(S,'main last',('''        if let Some(ancestor_scope) = item_scope_from_attributes(has_attrs)
            && ancestor_scope != ItemScope::Main
        {
            return ancestor_scope;
        }
    }
    ItemScope::Main''','''        return item_scope_from_attributes(has_attrs).unwrap_or(ItemScope::Main);
    }
    ItemScope::Main'''))
o(S,'walk',('''                if let Some((last_scope_node, _)) = scope_nodes.last()
                    && last_scope_node == &node
                {
                    scope_nodes.pop();
                }
''','''                if scope_nodes.last().is_some_and(|(it, _)| it == &node) {
                    scope_nodes.pop();
                }
'''))
o(S,'walk match',('''                match explicit_item_scope {
                    ItemScope::Main => {
                        // gets its scope from the last scoped node
                        let last_scope =
                            scope_nodes.last().map(|(_, it)| *it).unwrap_or(ItemScope::Main);
                        map.insert(node_ptr, last_scope);
                    }
                    ItemScope::Test | ItemScope::Verify => {
                        scope_nodes.push((node.clone(), explicit_item_scope));
                        // gets its scope from its own attribute
                        map.insert(node_ptr, explicit_item_scope);
                    }
                }
''','''                if explicit_item_scope != ItemScope::Main {
                    scope_nodes.push((node.clone(), explicit_item_scope));
                }
                let scope = scope_nodes.last().map_or(ItemScope::Main, |(_, it)| *it);
                map.insert(node_ptr, scope);
'''))
o(P,'for loop',('''        .filter(|it| is_visible_in_context(ctx.db, it, original_start_at.clone()).is_none());
    let mut completion_items = vec![];
    for import_candidate in import_candidates {
        if !existing''',''';
    let mut completion_items = vec![];
    for import_candidate in import_candidates {
        if is_visible_in_context(ctx.db, import_candidate, original_start_at.clone()).is_some() {
            continue;
        }
        if !existing'''))
