F='crates/project-model/src/aptos_package/load_from_fs.rs';P='crates/project-model/src/project_folders.rs';D='crates/project-model/src/dep_graph.rs'
SEEDS=[
 dict(id='d05-nameless-dep-not-followed',property='D05',libs=['pm'],files={},
  edits=[(F,'''                    visited_dep_names.insert(current_dep_package_name.clone());
                }
                res.push(current_dep);
                for transitive_dep in transitive_declared_deps {
                    deps_queue.push_back(transitive_dep.clone());
                }''','''                    visited_dep_names.insert(current_dep_package_name.clone());
                    for transitive_dep in transitive_declared_deps {
                        deps_queue.push_back(transitive_dep.clone());
                    }
                }
                res.push(current_dep);''')],
  needs='a dependency whose manifest has no package name but has dependencies of its own',
  breaks='the packages that dependency uses are not visible, so every use of them is unresolved'),
 dict(id='d05-missing-dep-ends-the-list',property='D05',libs=['pm'],files={},
  edits=[(F,'''missing_dependencies.push(declared_toml_dep.name());
                                continue;''','''missing_dependencies.push(declared_toml_dep.name());
                                break;''')],
  needs='a manifest that declares a dependency that is not on disk before one that is',
  breaks='the dependencies declared after the missing one are not loaded and not reported'),
 dict(id='d05-local-dep-of-git-is-local',property='D05',libs=['pm'],files={},
  edits=[(F,'MoveTomlDependency::Local(_) if outer_package_kind == PackageKind::Git => {','MoveTomlDependency::Local(_) if outer_package_kind == PackageKind::Git && !resolve_deps => {')],
  needs='a git dependency with a local dependency inside the same checkout',
  breaks='a package inside the cache of git checkouts is treated as the user\'s own: watched, checked and offered for edits'),
 dict(id='d05-local-sets-by-count',property='D05',libs=['pm'],files={},
  edits=[(P,'let is_local = self.local_filesets.contains(&(idx as u64));','let is_local = idx < self.local_filesets.len();')],
  needs='a library whose path sorts before that of a local package',
  breaks='libraries are treated as local packages and local packages as libraries'),
 dict(id='d05-graph-without-late-package',property='D05',libs=['pm'],files={},
  edits=[(D,"""        let (package_file_id, dep_ids) = aptos_package.dep_graph_entry(load)?;""","""        let Some((package_file_id, dep_ids)) = aptos_package.dep_graph_entry(load) else {
            continue;
        };""")],
  needs='the package graph is built while one manifest has not reached the VFS yet',
  breaks='a graph without that package and those that depend on it is published as complete, and nothing asks for it again'),
 dict(id='d05-watch-last-entry-only',property='D05',libs=['pm'],files={},
  edits=[(P,'''            for dir_entry in folder_root_to_dir_entries(package_folder_root.clone()) {
                if package_folder_root.is_local {
                    folders.watch.push(folders.load.len());
                }
                folders.load.push(dir_entry);
            }''','''            folders
                .load
                .extend(folder_root_to_dir_entries(package_folder_root.clone()));
            if package_folder_root.is_local {
                folders.watch.push(folders.load.len() - 1);
            }''')],
  needs='a manifest of a local package that is changed outside of the editor, with the server watching files',
  breaks='changes of Move.toml are not noticed until the server is restarted'),
]
