import sys; sys.path.insert(0,'/verif/tools')
from mut import run
F='crates/project-model/src/aptos_package/load_from_fs.rs';P='crates/project-model/src/project_folders.rs';A='crates/project-model/src/aptos_package.rs';D='crates/project-model/src/dep_graph.rs';M='crates/project-model/src/move_toml.rs';L='crates/project-model/src/lib.rs'
b=lambda f,o,n,l:run('D05',[(f,o,n)],l,'bug')
k=lambda f,o,n,l:run('D05',[(f,o,n)],l,'ok')
b(F,'''                    if visited_dep_names.contains(current_dep_package_name) {
                        continue;''','''                    if visited_dep_names.contains(current_dep_package_name) {
                        break;''','dup breaks')
b(F,'''        visited_dep_manifests.insert(current_dep.0.clone());
''','','not visited')
b(F,'''                for transitive_dep in transitive_declared_deps {
                    deps_queue.push_back(transitive_dep.clone());
                }''','''                for transitive_dep in transitive_declared_deps {
                    if transitive_dep.1 == PackageKind::Local {
                        deps_queue.push_back(transitive_dep.clone());
                    }
                }''','only local deps')
b(F,'''                for transitive_dep in transitive_declared_deps {
                    deps_queue.push_back(transitive_dep.clone());
                }''','''                if let Some(transitive_dep) = transitive_declared_deps.first() {
                    deps_queue.push_back(transitive_dep.clone());
                }''','first dep')
k(F,'''                for transitive_dep in transitive_declared_deps {
                    deps_queue.push_back(transitive_dep.clone());
                }''','''                deps_queue.extend(transitive_declared_deps.iter().cloned());''','extend')
k(F,'''        if visited_dep_manifests.contains(&current_dep.0) {
            continue;
        }
        visited_dep_manifests.insert(current_dep.0.clone());''','''        if !visited_dep_manifests.insert(current_dep.0.clone()) {
            continue;
        }''','insert as test')
k(F,'''                for transitive_dep in transitive_declared_deps {
                    deps_queue.push_back(transitive_dep.clone());
                }''','''                for transitive_dep in transitive_declared_deps {
                    if !visited_dep_manifests.contains(&transitive_dep.0) {
                        deps_queue.push_back(transitive_dep.clone());
                    }
                }''','prefilter')
b(F,'''                    // local dependency''','''                    // local dependency''','noop') if False else None
b(F,'''MoveTomlDependency::Local(_) if outer_package_kind == PackageKind::Git => {
                                PackageKind::Git
                            }
                            ''','','git local dep is local')
b(F,'''missing_dependencies.push(declared_toml_dep.name());
                                continue;''','''break;''','stop at missing')
b(F,'''missing_dependencies.push(declared_toml_dep.name());
                                continue;''','''continue;''','missing not told')
b(F,'packages_queue.push_back((dep_manifest, dep_kind, true));','packages_queue.push_back((dep_manifest, outer_package_kind, true));','kind of outer')
b(F,'''Err(invalid_toml_err) => {
                res.insert(manifest_path, Err(invalid_toml_err));
            }''','''Err(invalid_toml_err) => {
                res.insert(manifest_path, Err(invalid_toml_err));
                break;
            }''','break on error')
b(F,'''        if res.contains_key(&manifest_path) {
            continue;
        }
''','','no seen test')
b(F,'''                            resolve_deps: false,''','''                            resolve_deps: true,''','resolve flag')
k(F,'''                for (dep_manifest, dep_kind) in dep_manifests.clone() {
                    packages_queue.push_back((dep_manifest, dep_kind, true));
                }''','''                packages_queue.extend(dep_manifests.into_iter().map(|(dep_manifest, dep_kind)| (dep_manifest, dep_kind, true)));''','extend map')
k(F,'''                        let dep_package_kind = match declared_toml_dep {
                            MoveTomlDependency::Git(_) => PackageKind::Git,
                            MoveTomlDependency::Local(_) if outer_package_kind == PackageKind::Git => {
                                PackageKind::Git
                            }
                            MoveTomlDependency::Local(_) => PackageKind::Local,
                        };''','''                        let is_git = matches!(declared_toml_dep, MoveTomlDependency::Git(_)) || outer_package_kind == PackageKind::Git;
                        let dep_package_kind = if is_git { PackageKind::Git } else { PackageKind::Local };''','matches kind')
k(F,'''                    if let Some(dep_root) = declared_toml_dep.dep_root(&package_root) {
                        let dep_manifest_path = match try_find_move_toml_at_root(dep_root.as_path()) {
                            Some(move_toml_path) => ManifestPath::new(move_toml_path),
                            None => {''','''                    let Some(dep_root) = declared_toml_dep.dep_root(&package_root) else { continue; };
                    {
                        let dep_manifest_path = match try_find_move_toml_at_root(dep_root.as_path()) {
                            Some(move_toml_path) => ManifestPath::new(move_toml_path),
                            None => {''','let else')
b(F,'''        all_reachable_manifests.extend(reachable_manifests);''','''        all_reachable_manifests = reachable_manifests;''','last ws only')
b(F,'''            Err(manifest_error) => {
                all_reachable_aptos_packages.push(LoadedPackage::ManifestParseError(manifest_error));
            }''','''            Err(_) => continue,''','errors dropped')
b(P,'''                if package_folder_root.is_local {
                    folders.watch.push(folders.load.len());
                }
                folders.load.push(dir_entry);''','''                folders.load.push(dir_entry);
                if package_folder_root.is_local {
                    folders.watch.push(folders.load.len());
                }''','watch off by one')
b(P,'''            if package_folder_root.is_local {
                local_filesets.push(fsc.len() as u64);
            }
''','','no local') 
b(P,'''        all_folder_roots.sort();
''','''        all_folder_roots.retain(|it| it.is_local);
''','only local roots')
b(P,'local_filesets.push(fsc.len() as u64)','local_filesets.push(folders.load.len() as u64)','wrong index')
b(A,'''            self.content_root().join("scripts"),
''','','no scripts')
b(P,'''                if let Some(manifest_file_id) = package_file_set.file_for_path(&candidate_manifest) {
                    package_manifest_file_id = Some(*manifest_file_id);
                }''','''                package_manifest_file_id = package_file_set.file_for_path(&candidate_manifest).copied();''','last candidate')
k(P,'''            let mut package_manifest_file_id: Option<FileId> = None;
            for candidate_manifest in self.fileset_root_manifests.iter() {
                if let Some(manifest_file_id) = package_file_set.file_for_path(&candidate_manifest) {
                    package_manifest_file_id = Some(*manifest_file_id);
                }
            }''','''            let package_manifest_file_id = self.fileset_root_manifests.iter().filter_map(|it| package_file_set.file_for_path(it)).last().copied();''','filter_map last')
b(P,'''            let is_local = self.local_filesets.contains(&(idx as u64));''','''            let is_local = !self.local_filesets.is_empty();''','any local')
b(D,'''            let dep_manifest_path = try_find_move_toml_at_root(dep_root)?;
            let dep_file_id = load_package_file_id(dep_manifest_path.as_path(), load)?;
            dep_ids.push(dep_file_id);''','''            let Some(dep_manifest_path) = try_find_move_toml_at_root(dep_root) else { continue };
            if let Some(dep_file_id) = load_package_file_id(dep_manifest_path.as_path(), load) {
                dep_ids.push(dep_file_id);
            }''','partial graph')
b(D,'''        let (package_file_id, dep_ids) = aptos_package.dep_graph_entry(load)?;''','''        let Some((package_file_id, dep_ids)) = aptos_package.dep_graph_entry(load) else { continue };''','skip package')
b(M,'self.dependencies.iter().chain(self.dev_dependencies.iter())','self.dependencies.iter().chain(self.dependencies.iter())','deps twice')
b(A,'is_local: self.kind == PackageKind::Local,','is_local: true,','all local')
k(D,'''        let mut dep_ids = vec![];
        for (dep_root, _) in self.dep_roots() {
            let dep_manifest_path = try_find_move_toml_at_root(dep_root)?;
            let dep_file_id = load_package_file_id(dep_manifest_path.as_path(), load)?;
            dep_ids.push(dep_file_id);
        }
''','''        let dep_ids = self.dep_roots().iter().map(|(dep_root, _)| { let m = try_find_move_toml_at_root(dep_root)?; load_package_file_id(m.as_path(), load) }).collect::<Option<Vec<_>>>()?;
''','collect option')
k(L,'''        for ws_root in ws_roots {
            let manifests = walk_and_discover_manifests(ws_root);
            all_manifests.extend(manifests);
        }''','''        all_manifests.extend(ws_roots.iter().flat_map(walk_and_discover_manifests));''','flat_map')
b(L,'''            let manifests = walk_and_discover_manifests(ws_root);
            all_manifests.extend(manifests);''','''            let manifests = walk_and_discover_manifests(ws_root);
            all_manifests = manifests;''','last root')
b(F,'''missing_dependencies.push(declared_toml_dep.name());
                                continue;''','''missing_dependencies.push(declared_toml_dep.name());
                                break;''','stop at missing, told')
b(P,'let is_local = self.local_filesets.contains(&(idx as u64));','let is_local = idx < self.local_filesets.len();','by count')
k(P,'let is_local = self.local_filesets.contains(&(idx as u64));','let is_local = self.local_filesets.iter().any(|it| *it == idx as u64);','any eq')
