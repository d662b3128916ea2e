N='crates/aptos-language-server/src/handlers/notification.rs'; M='crates/aptos-language-server/src/main_loop.rs'; O='crates/aptos-language-server/src/opened_files.rs'
B='bug'; G='ok'
run('L06',[(M,"!self.opened_files.contains(&path) && (is_changed || vfs.file_id(&path).is_none())","(is_changed || !self.opened_files.contains(&path)) && (is_changed || vfs.file_id(&path).is_none())")],'changed overrides open',B)
run('L06',[(M,'''            if !self.opened_files.contains(&path) && (is_changed || vfs.file_id(&path).is_none()) {
                vfs.set_file_contents(path, contents);
            }''','''            if self.opened_files.contains(&path) {
                continue;
            }
            let known = vfs.file_id(&path).is_some();
            if known && !is_changed {
                continue;
            }
            vfs.set_file_contents(path, contents);''')],'continue style',G)
run('L06',[(M,"(is_changed || vfs.file_id(&path).is_none())","vfs.file_id(&path).is_none()")],'changed lost',B)
run('L06',[(M,'self.load_files_into_vfs(files, true);','self.load_files_into_vfs(files, false);')],'Changed treated as loaded',B)
run('L06',[(N,"        *version = params.text_document.version;\n",""),(N,"            data.clone_from(&new_contents);","            *version = params.text_document.version;\n            data.clone_from(&new_contents);")],'version only when changed',B)
run('L06',[(N,"            data.clone_from(&new_contents);\n","")],'not recorded',B)
run('L06',[(N,"            data.clone_from(&new_contents);\n            state.vfs.write().0.set_file_contents(path, Some(new_contents));","            *data = new_contents;\n            state.vfs.write().0.set_file_contents(path, Some(data.clone()));")],'other style',G)
run('L06',[(N,'''        if already_exists {
            tracing::error!("duplicate DidOpenTextDocument: {}", path);
        }
''','''        if already_exists {
            tracing::error!("duplicate DidOpenTextDocument: {}", path);
            return Ok(());
        }
''')],'duplicate open ignored',B)
run('L06',[(N,'''            tracing::error!("orphan DidCloseTextDocument: {}", path);
''','''            tracing::error!("orphan DidCloseTextDocument: {}", path);
            return Ok(());
''')],'orphan close returns',B)
run('L06',[(N,"            state.vfs_loader.handle.invalidate(path.to_path_buf());\n        }\n    }\n    Ok(())\n}\n\npub(crate) fn handle_did_save","            let _ = path;\n        }\n    }\n    Ok(())\n}\n\npub(crate) fn handle_did_save")],'no reread',B)
run('L06',[(O,"Some(_) => Err(()),\n            None => Ok(()),","Some(_) => Ok(()),\n            None => Ok(()),")],'dup not reported',B)
run('L06',[(O,"self.files.insert(path, data)","self.files.insert(path, DocumentData::new(0, data.data))")],'version dropped in store',B)
run('L06',[(N,"std::str::from_utf8(data).unwrap(),","&String::from_utf8_lossy(&Vec::new()),")],'edits on empty',B)
run('L06',[(N,'''        state
            .vfs
            .write()
            .0
            .set_file_contents(path, Some(params.text_document.text.into_bytes()));
''','''        let vfs = &mut state.vfs.write().0;
        let contents = params.text_document.text.into_bytes();
        vfs.set_file_contents(path, Some(contents));
''')],'open other style',G)
run('L06',[(N,'''    if let Ok(path) = from_proto::vfs_path(&params.text_document.uri) {
        let already_exists''','''    let Ok(path) = from_proto::vfs_path(&params.text_document.uri) else { return Ok(()); };
    {
        let already_exists''')],'let else',G)
