F='crates/lang/src/nameres/is_visible.rs'; S='crates/lang/src/item_scope.rs'; V='crates/syntax/src/ast/visibility.rs'; N='crates/syntax/src/ast/node_ext/visibility.rs'
def d(id,edits,needs,breaks): return dict(id=id,property='D09',libs=['visible'],files={},edits=edits,needs=needs,breaks=breaks)
SEEDS=[
 d('d09-unresolved-friend-ends-it',[(F,'                        else {\n                            continue;','                        else {\n                            break;')],'a module whose first friend declaration does not resolve and whose second names the caller','a friend function counts as private in a module that is declared a friend'),
 d('d09-friend-read-in-caller-file',[(F,'friend_decl.path().opt_in_file(item_file_id)','friend_decl.path().opt_in_file(context_file_id)')],'a friend in another file','friend declarations are looked up in the wrong file'),
 d('d09-no-modules-are-the-same',[(F,'item_module.is_some() && context_module.is_some() && item_module == context_module','item_module == context_module')],'a private item of a script used outside any module','items of a script are visible from other scripts'),
 d('d09-test-code-sees-verify-only',[(F,'if item_scope != context_item_scope {','if item_scope != context_item_scope && !context_item_scope.is_test() {')],'a verify_only item used in test code','the use is accepted, the compiler refuses it'),
 d('d09-imports-in-tests',[(F,'context_item_scope.is_test() && item_ns == Ns::NAME','context_item_scope.is_test()')],'a private function imported by a test_only use','the import is accepted'),
 d('d09-scope-of-first-ancestor',[(S,'scope_nodes.last().map(|(_, it)| *it)','scope_nodes.first().map(|(_, it)| *it)')],'code in a verify_only item in a test_only module','the code counts as test code'),
 d('d09-scope-left-early',[(S,'                    && last_scope_node == &node\n','                    && last_scope_node.kind() == node.kind()\n')],'a test_only function around another node of its kind','what follows the inner one loses the scope'),
 d('d09-shrunk-twice',[(S,'            return adjustment_scope;\n        }\n        self','            return adjustment_scope;\n        }\n        if self == ItemScope::Verify { self } else { adjustment_scope }')],'a test_only item imported by a verify_only use','a test item counts as available in verify_only code'),
 d('d09-package-without-public',[(V,'vis_modifier.is_public_package() || vis_modifier.is_package()','vis_modifier.is_public_package()')],'`package fun f()`','the function counts as public everywhere'),
 d('d09-public-package-tokens',[(N,'            && self.package_token().is_some()\n            && self.l_paren_token','            && self.script_token().is_some()\n            && self.l_paren_token')],'`public(package) fun f()` used from another package','the function counts as public, or another modifier does'),
]
