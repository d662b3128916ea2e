R='crates/aptos-language-server/src/reload.rs'
def S(id,edits,needs,breaks): return dict(id=id,property='L17',libs=['watch'],files={},edits=[(R,)+e for e in edits],needs=needs,breaks=breaks)
SEEDS=[
 S('l17-watch-first-load-only',[('                self.setup_client_file_watchers(&packages_from_fs);','                if switching_from_empty_workspace {\n                    self.setup_client_file_watchers(&packages_from_fs);\n                }')],
  'a package that appears after the first load (a folder added, a Move.toml created)','nothing of the new package is watched: changes made outside the editor are never seen'),
 S('l17-nested-directories',[('.map(|it| (it.to_owned(), "**/*.move"))','.map(|it| (it.to_owned(), "*.move"))')],
  'a client with relative patterns and a file in a directory below `sources`','changes of that file outside the editor are never seen'),
 S('l17-sources-only',[('''                        .source_dirs()
                        .iter()
                        .map(|base| format!''','''                        .source_dirs()
                        .iter()
                        .filter(|dir| !dir.ends_with("scripts"))
                        .map(|base| format!''')],
  'a client without relative patterns and a file below `scripts`','changes of that file outside the editor are never seen'),
]
