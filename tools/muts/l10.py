import sys; sys.path.insert(0,'/verif/tools')
from mut import run
S='crates/aptos-language-server/src/'
C=S+'config.rs';O=S+'config/options.rs';M=S+'config/options/macros.rs';CC=S+'config/config_change.rs';N=S+'handlers/notification.rs';R=S+'reload.rs';Q=S+'handlers/request.rs';T=S+'lsp/to_proto.rs';MF=S+'movefmt.rs'
DL='crates/ide-diagnostics/src/lib.rs';DC='crates/ide-diagnostics/src/config.rs';A='crates/ide/src/annotations.rs';IP='crates/ide/src/inlay_hints/ident_pat.rs';PN='crates/ide/src/inlay_hints/param_name.rs'
def b(i,f,o,n,l): run(i,[(f,o,n)],l,'bug')
def k(i,f,o,n,l): run(i,[(f,o,n)],l,'ok')
b('L10',O,'completion_autoimport_enable: bool = false','completion_autoimport_enable: bool = true','default')
b('L10',O,'lens_run_enable: bool','lens_runnables_enable: bool','renamed')
b('L10',O,'dap_path: Option<Utf8PathBuf> = None','dap_path: Utf8PathBuf = Utf8PathBuf::new()','type')
b('L10',M,'if let Some(v) = self.client_config.0.global.$field.as_ref() {\n                        return &v;\n                    }','if let Some(v) = self.client_config.0.global.$field.as_ref() {\n                        if v != &self.default_config.global.$field { return &v; }\n                    }','same anyway?')
b('L10',M,'''                        stringify!($field),
                        None$(.or''','''                        stringify!($ty),
                        None$(.or''','wrong key')
b('L10',C,'runnables: *self.lens_enable() && *self.lens_run_enable()','runnables: *self.lens_enable() || *self.lens_run_enable()','or')
b('L10',C,'enable_only: self.diagnostics_enableOnly().to_owned()','enable_only: self.diagnostics_disabled().to_owned()','swap')
b('L10',C,'''            extra_args: self.movefmt_extraArgs().clone(),
        })
    }

    pub fn discovered''','''            extra_args: vec![],
        })
    }

    pub fn discovered''','guessed no args')
b('L10',C,'self.runnables || self.specifications','self.specifications','any')
b('L10',DL,'acc.retain(|d| ctx.config.is_diagnostic_enabled(d.code.as_str()));','acc.retain(|d| !ctx.config.disabled.contains(d.code.as_str()));','disabled only')
b('L10',DL,'DiagnosticCode::SyntaxError.as_str()','"syntax_error"','code')
b('L10',DC,'if !self.enable_only.is_empty() {','if !self.enable_only.is_empty() && !self.disabled.contains(code) {','prec')
b('L10',Q,'''        config = config.for_assists();
''','''        config = ide_diagnostics::config::DiagnosticsConfig::test_sample().for_assists();
''','other config')
b('L10',Q,'annotate_runnables: lens_config.runnable(),','annotate_runnables: true,','always run')
b('L10',A,'''            ast::NamedElement::Fun(fun) if config.annotate_fun_specs => {''','''            ast::NamedElement::Fun(fun) if config.annotate_fun_specs && config.annotate_runnables => {''','specs need runs')
b('L10',IP,'''            if config.hide_closure_parameter_hints {
                return None;
            }
''','','closure')
b('L10',IP,'if !config.tuple_type_hints && ident_pat','if !config.hide_closure_parameter_hints && ident_pat','tuple flag')
b('L10',PN,'if !config.parameter_hints {','if !config.type_hints {','param flag')
b('L10',T,'''            let mut args = vec!["move", "prove", "--filter", filter.as_str()]
                .iter()
                .map(|it| it.to_string())
                .collect::<Vec<_>>();
            for extra_arg in config.prover_extra_args {''','''            let mut args = vec!["move", "prove", "--filter", filter.as_str()]
                .iter()
                .map(|it| it.to_string())
                .collect::<Vec<_>>();
            for extra_arg in config.tests_extra_args {''','args')
b('L10',T,'if !lens_config.runnables {','if !lens_config.specifications {','lens gate')
b('L10',MF,'    command.args(movefmt_config.extra_args);\n','    if current_version.major > 1 {\n        command.args(movefmt_config.extra_args);\n    }\n','movefmt args')
b('L10',R,'if self.config.inlay_hints_config() != old_config.inlay_hints_config() {','if self.config.diagnostics_config() != old_config.diagnostics_config() {','refresh')
b('L10','crates/ide-diagnostics/src/handlers/missing_type_arguments.rs','if !ctx.config.needs_type_annotation {','if ctx.config.assists_only {','needs')
b('L11',O,'''        .find_map(|res| match res {''','''        .find(Result::is_ok).and_then(|res| match res {''','orig')
b('L11',O,'''                error_sink.push((pointer, e));
                None''','''                if alias.is_none() { error_sink.push((pointer, e)); }
                None''','alias only')
b('L11',O,'''        .chain(iter::once(field))''','''        .or(Some(field)).into_iter()''','alias hides')
b('L11',O,'''pointer.insert(0, '/');''','''pointer.insert_str(0, "/client/");''','pointer still read')
b('L11',CC,'config.client_config = (full_config_input, config_errors);','if config_errors.is_empty() { config.client_config = (full_config_input, config_errors); }','one bad drops all')
b('L11',CC,'''                .iter()
                .chain(config.validation_errors.0.iter())''','''                .iter()
                .skip(1)
                .chain(config.validation_errors.0.iter())''','skip')
b('L11',N,'global_state.config_errors = errors.is_empty().not().then_some(errors);','if !errors.is_empty() { global_state.config_errors = Some(errors); }','never cleared')
b('L11',N,'global_state.update_configuration(config);','if errors.is_empty() { global_state.update_configuration(config); }','only if ok')
b('L11',R,'''        if let Some(err) = &self.config_errors {
            status.health |= lsp_ext::Health::Warning;''','''        if let Some(err) = &self.config_errors {''','no warn')
# same behaviour
k('L11',O,'''        .find_map(|res| match res {
            Ok(it) => Some(it),
            Err((e, pointer)) => {
                tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
                error_sink.push((pointer, e));
                None
            }
        })
''','''        .filter_map(|res| match res {
            Ok(it) => Some(it),
            Err((e, pointer)) => {
                error_sink.push((pointer, e));
                None
            }
        })
        .next()
''','filter_map next')
k('L11',O,'''    alias
        .into_iter()
        .chain(iter::once(field))
        .filter_map(move |field| {
            let mut pointer = field.replace('_', "/");
            pointer.insert(0, '/');
            json.pointer_mut(&pointer)
                .map(|it| serde_json::from_value(it.take()).map_err(|e| (e, pointer)))
        })
        .find_map(|res| match res {
            Ok(it) => Some(it),
            Err((e, pointer)) => {
                tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
                error_sink.push((pointer, e));
                None
            }
        })
''','''    for name in alias.into_iter().chain(iter::once(field)) {
        let pointer = format!("/{}", name.replace('_', "/"));
        let Some(value) = json.pointer_mut(&pointer) else {
            continue;
        };
        match serde_json::from_value(value.take()) {
            Ok(it) => return Some(it),
            Err(e) => {
                tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
                error_sink.push((pointer, e));
            }
        }
    }
    None
''','loop')
k('L11',N,'global_state.config_errors = errors.is_empty().not().then_some(errors);','global_state.config_errors = if errors.is_empty() { None } else { Some(errors) };','if')
k('L11',N,'''                        global_state.update_configuration(config);
                        global_state.config_errors = errors.is_empty().not().then_some(errors);''','''                        global_state.config_errors = errors.is_empty().not().then_some(errors);
                        global_state.update_configuration(config);''','reorder')
k('L11',CC,'''        let errors = ConfigErrors(
            config
                .client_config
                .1
                .0
                .iter()
                .chain(config.validation_errors.0.iter())
                .cloned()
                .collect(),
        );
        (config, errors)''','''        let mut all = config.client_config.1.0.clone();
        all.extend(config.validation_errors.0.iter().cloned());
        (config, ConfigErrors(all))''','extend')
k('L11',CC,'''            if !(json.is_null() || json.as_object().is_some_and(|it| it.is_empty())) {''','''            let nothing = json.is_null() || json.as_object().is_some_and(|it| it.is_empty());
            if !nothing {''','named')
k('L10',C,'runnables: *self.lens_enable() && *self.lens_run_enable()','runnables: if *self.lens_enable() { *self.lens_run_enable() } else { false }','if')
k('L10',C,'''        if let Some(explicit_path) = self.movefmt_path().clone() {
            return Some(MovefmtConfig {
                path: explicit_path,
                extra_args: self.movefmt_extraArgs().clone(),
            });
        }

        let guessed_path = find_movefmt_path()?;
        Some(MovefmtConfig {
            path: guessed_path,
            extra_args: self.movefmt_extraArgs().clone(),
        })''','''        let path = match self.movefmt_path() {
            Some(path) => path.clone(),
            None => find_movefmt_path()?,
        };
        Some(MovefmtConfig {
            path,
            extra_args: self.movefmt_extraArgs().clone(),
        })''','match')
k('L10',DL,'''        return Vec::new();
    }

    // [#3434]''','''        return vec![];
    }

    // [#3434]''','vec')
k('L10',M,'''                    if let Some(v) = self.client_config.0.global.$field.as_ref() {
                        return &v;
                    }
''','''                    if let Some(v) = &self.client_config.0.global.$field {
                        return v;
                    }
''','macro ref')
k('L10',T,'''            for extra_arg in config.tests_extra_args {
                if !args.contains(&extra_arg) {
                    args.push(extra_arg);
                }
            }''','''            for extra_arg in config.tests_extra_args {
                if args.contains(&extra_arg) {
                    continue;
                }
                args.push(extra_arg);
            }''','continue')
k('L10',DC,'''        if !self.enable_only.is_empty() {
            return self.enable_only.contains(code);
        }
        !self.disabled.contains(code)''','''        if self.enable_only.is_empty() {
            !self.disabled.contains(code)
        } else {
            self.enable_only.contains(code)
        }''','inv')
k('L10',Q,'''    if lens_config.none() {''','''    if !lens_config.runnables && !lens_config.specifications {''','none')
k('L10',IP,'''            if lambda_param.type_().is_some() {
                return None;
            }
            if config.hide_closure_parameter_hints {
                return None;
            }
''','''            if config.hide_closure_parameter_hints || lambda_param.type_().is_some() {
                return None;
            }
''','merge')
k('L10',R,'''        if self.config.diagnostics_config() != old_config.diagnostics_config() {
            self.ask_client_for_diagnostics_refresh("update configuration");
        }
''','''        let same_diagnostics = self.config.diagnostics_config() == old_config.diagnostics_config();
        if !same_diagnostics {
            self.ask_client_for_diagnostics_refresh("update configuration");
        }
''','same')
