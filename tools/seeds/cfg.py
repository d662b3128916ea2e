A='crates/aptos-language-server/src/config'
C,O,CC,D=A+'.rs',A+'/options.rs',A+'/config_change.rs','crates/ide-diagnostics/src/config.rs'
def S(id,p,edits,needs,breaks): return dict(id=id,property=p,libs=['cfg'],files={},edits=edits,needs=needs,breaks=breaks)
SEEDS=[
 S('l10-single-enable-only','L10',[(D,'if !self.enable_only.is_empty() {','if self.enable_only.len() > 1 {')],
  'diagnostics.enableOnly with exactly one code in it','the list is ignored: every other diagnostic is still shown'),
 S('l10-spec-lenses-under-run','L10',[(C,'specifications: *self.lens_enable() && *self.lens_specifications_enable(),','specifications: *self.lens_run_enable() && *self.lens_specifications_enable(),')],
  'a user who switches all lenses off, or only the run lenses','the specification lenses follow lens.run.enable, not lens.enable'),
 S('l10-closure-hints-follow-parameter-hints','L10',[(C,'hide_closure_parameter_hints: self.inlayHints_typeHints_hideClosureParameter().to_owned(),','hide_closure_parameter_hints: self.inlayHints_parameterHints_enable().to_owned(),')],
  'parameter hints and hideClosureParameter set to different values','switching parameter hints on hides the type hints of closure parameters'),
 S('l10-prover-args-from-tests','L10',[(C,'prover_extra_args: self.prover_extraArgs().clone(),','prover_extra_args: self.tests_extraArgs().clone(),')],
  'different extra arguments for tests and for the prover','the prover is started with the arguments meant for the tests'),
 S('l11-three-level-names','L11',[(O,"let mut pointer = field.replace('_', \"/\");","let mut pointer = field.replacen('_', \"/\", 1);")],
  'a setting whose name has three parts, like inlayHints.typeHints.enable','the setting is never found in what the client sent, and never reported'),
 S('l11-only-first-error','L11',[(CC,'''                .chain(config.validation_errors.0.iter())
''','''                .chain(config.validation_errors.0.iter())
                .take(1)
''')],
  'a client that sends two ill-formed settings','only the first of them is reported'),
 S('l11-single-setting-ignored','L11',[(CC,'json.as_object().is_some_and(|it| it.is_empty())','json.as_object().is_some_and(|it| it.len() < 2)')],
  'a client that sends one setting only','the setting is dropped, as if the client had sent nothing'),
]
