import sys; sys.path.insert(0,'/verif/tools')
from mut import run
S='crates/aptos-language-server/src/'
O=S+'config/options.rs'; CC=S+'config/config_change.rs'; N=S+'handlers/notification.rs'; RL=S+'reload.rs'; CF=S+'config.rs'
def b(l,f,*e): run('L11',[(f,)+x for x in e],l,'bug')
def o(l,f,*e): run('L11',[(f,)+x for x in e],l,'ok')
b('errors kept when none',N,('global_state.config_errors = errors.is_empty().not().then_some(errors);','if errors.is_empty().not() {\n                            global_state.config_errors = Some(errors);\n                        }'))
b('update only if no errors',N,('global_state.update_configuration(config);','if errors.is_empty() {\n                            global_state.update_configuration(config);\n                        }'))
b('wrong item',N,('configs.get_mut(0)','configs.last_mut().filter(|it| it.is_object())'),('let config = Config::clone(&*global_state.config);','let config = Config::clone(&*global_state.config);\n                        if json.as_object().is_some_and(|it| it.len() < 2) { return; }'))
b('section',N,('Some("move-on-aptos".to_owned())','Some("move-on-aptos.diagnostics".to_owned())'))
b('only if object',CC,('if !(json.is_null() || json.as_object().is_some_and(|it| it.is_empty())) {','if !(json.is_null() || json.as_object().is_none_or(|it| it.len() <= 1)) {'))
b('keep config with errors',CC,('config.client_config = (full_config_input, config_errors);','if config_errors.is_empty() {\n                    config.client_config = (full_config_input, config_errors);\n                } else {\n                    config.client_config.1 = config_errors;\n                }'))
b('errors dedup first',CC,('json_errors\n                        .into_iter()','json_errors\n                        .into_iter()\n                        .take(8)'))
b('errors not of client',CC,('                .chain(config.validation_errors.0.iter())\n','                .skip(config.validation_errors.0.len().saturating_sub(1))\n                .take_while(|it| !matches!(&***it, ConfigErrorInner::Json { config_key, .. } if config_key.is_empty()))\n'))
b('field first',O,('    alias\n        .into_iter()\n        .chain(iter::once(field))','    iter::once(field)\n        .take(if alias.is_some() { 0 } else { 1 })\n        .chain(alias)'))
b('replacen',O,("field.replace('_', \"/\")","field.replacen('_', \"/\", 2)"))
b('null is default',O,('.map(|it| serde_json::from_value(it.take())','.filter(|it| !it.is_boolean())\n                .map(|it| serde_json::from_value(it.take())'))
b('error lost',O,('error_sink.push((pointer, e));','if error_sink.is_empty() { error_sink.push((pointer, e)); }'))
b('error lost on alias',O,('error_sink.push((pointer, e));','if alias.is_none() { error_sink.push((pointer, e)); }'))
b('find_map stops',O,('.find_map(|res| match res {\n            Ok(it) => Some(it),','.next()\n        .and_then(|res| match res {\n            Ok(it) => Some(it),'))
b('status hides',RL,('if let Some(err) = &self.config_errors {','if let Some(err) = self.config_errors.as_ref().filter(|_| self.is_project_fully_loaded()) {'))
b('stale old config',RL,('let old_config = mem::replace(&mut self.config, Arc::new(config));','if config.discovered_manifests() == self.config.discovered_manifests() && self.vfs_sync_in_progress {\n            return;\n        }\n        let old_config = mem::replace(&mut self.config, Arc::new(config));'))
o('let config_errors loop',CC,('''                let config_errors = ConfigErrors(
                    json_errors
                        .into_iter()
                        .map(|(a, b)| ConfigErrorInner::Json { config_key: a, error: b })
                        .map(Arc::new)
                        .collect(),
                );''','''                let mut collected = Vec::with_capacity(json_errors.len());
                for (config_key, error) in json_errors {
                    collected.push(Arc::new(ConfigErrorInner::Json { config_key, error }));
                }
                let config_errors = ConfigErrors(collected);'''))
o('errors if else',N,('global_state.config_errors = errors.is_empty().not().then_some(errors);','global_state.config_errors = if errors.is_empty() { None } else { Some(errors) };'))
o('apply let-else',CC,('''        if let Some(json) = change.client_config_change {
            tracing::info!("updated extension config: {:#}", json);
''','''        let Some(json) = change.client_config_change else {
            return config;
        };
        {
            tracing::info!("updated extension config: {:#}", json);
'''))
o('get_field loop',O,('''    alias
        .into_iter()
        .chain(iter::once(field))
        .filter_map(move |field| {
            let mut pointer = field.replace('_', "/");
            pointer.insert(0, '/');
            json.pointer_mut(&pointer)
                .map(|it| serde_json::from_value(it.take()).map_err(|e| (e, pointer)))
        })
        .find_map(|res| match res {
            Ok(it) => Some(it),
            Err((e, pointer)) => {
                tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
                error_sink.push((pointer, e));
                None
            }
        })
''','''    for field in alias.into_iter().chain(iter::once(field)) {
        let pointer = format!("/{}", field.replace('_', "/"));
        let Some(value) = json.pointer_mut(&pointer) else {
            continue;
        };
        match serde_json::from_value(value.take()) {
            Ok(it) => return Some(it),
            Err(e) => {
                tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
                error_sink.push((pointer, e));
            }
        }
    }
    None
'''))
o('handle let-else',N,('''                (None, Some(mut configs)) => {
                    if let Some(json) = configs.get_mut(0) {''','''                (None, Some(mut configs)) => {
                    if let Some(json) = configs.first_mut() {'''))
o('update clone',RL,('let old_config = mem::replace(&mut self.config, Arc::new(config));','let old_config = Arc::clone(&self.config);\n        self.config = Arc::new(config);'))
o('update local arc',RL,('let old_config = mem::replace(&mut self.config, Arc::new(config));','let new_config = Arc::new(config);\n        let old_config = mem::replace(&mut self.config, new_config);'))
o('answer into_iter',N,('(None, Some(mut configs)) => {\n                    if let Some(json) = configs.get_mut(0) {','(None, Some(configs)) => {\n                    if let Some(json) = configs.into_iter().next() {'),('change.change_client_config(json.take());','change.change_client_config(json);'))
o('answer let else',N,('                    if let Some(json) = configs.get_mut(0) {','                    let Some(json) = configs.get_mut(0) else {\n                        return;\n                    };\n                    {'))
o('section const',N,('        lsp_types::ConfigurationParams {\n            items: vec![lsp_types::ConfigurationItem {\n                scope_uri: None,\n                section: Some("move-on-aptos".to_owned()),\n            }],\n        },','        settings_params(),'),('pub(crate) fn handle_did_change_configuration(','fn settings_params() -> lsp_types::ConfigurationParams {\n    let item = lsp_types::ConfigurationItem {\n        scope_uri: None,\n        section: Some(String::from("move-on-aptos")),\n    };\n    lsp_types::ConfigurationParams { items: vec![item] }\n}\n\npub(crate) fn handle_did_change_configuration('))
