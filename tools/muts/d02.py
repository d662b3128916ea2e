import sys; sys.path.insert(0,'..'); sys.path.insert(0,'.')
from mut import run
R='crates/ide-db/src/root_db.rs'; I='crates/base-db/src/inputs.rs'; C='crates/base-db/src/change.rs'; A='crates/ide-db/src/apply_change.rs'; H='crates/lang/src/hir_db.rs'
B,G='bug','ok'
run('D02',[(R,"        self.depend_on_package_roots();\n        self.files.file_package_id(id)","        self.files.file_package_id(id)")],'no dep',B)
run('D02',[(R,"        let _ = self.files.package_ids().data(self);","        let _ = self.files.package_ids();")],'dep not read',B)
run('D02',[(R,"        self.depend_on_package_roots();\n        self.files.file_package_id(id)","        let package_id = self.files.file_package_id(id);\n        self.all_package_ids().data(self);\n        package_id")],'other order',G)
run('D02',[(I,"        self.all_package_ids\n            .unwrap()\n            .set_data(db)\n            .with_durability(Durability::MEDIUM)\n            .to(all_package_ids);","        if !all_package_ids.is_empty() {\n            self.all_package_ids\n                .unwrap()\n                .set_data(db)\n                .with_durability(Durability::MEDIUM)\n                .to(all_package_ids);\n        }")],'set only if not empty',B)
run('D02',[(A,"        self.request_cancellation();\n\n        tracing","        tracing"),(A,"        change.apply(self);","        change.apply(self);\n        self.request_cancellation();")],'cancel last',B)
run('D02',[(A,"        self.request_cancellation();\n\n        tracing","        self.synthetic_write(Durability::LOW);\n\n        tracing")],'inline',G)
run('D02',[(C,'''        if let Some(package_roots) = self.package_roots.clone() {
            db.replace_package_roots(package_roots);
        }
''',''),(C,'''        let is_replacing_package_roots = self.package_roots.is_some();
''','''        let is_replacing_package_roots = self.package_roots.is_some();
        if let Some(package_roots) = self.package_roots.clone() {
            db.replace_package_roots(package_roots);
        }
''')],'roots later, after builtins spec',B)
run('D02',[(C,"        for (file_id, text) in self.files_changed {","        for (file_id, text) in self.files_changed.into_iter().rev() {")],'reverse',B)
run('D02',[(C,"            let text = text.unwrap_or_default();","            let Some(text) = text else { continue };")],'deleted kept',B)
run('D02',[(C,"            let text = text.unwrap_or_default();","            let text = match text { Some(it) => it, None => String::new() };")],'match',G)
run('D02',[(C,"            db.set_spec_related_files(builtins_file_id, vec![]);","")],'no spec',B)
run('D02',[(C,"                db.set_file_text_with_durability(file_id, text.as_str(), durability);\n                continue;","                if durability == Durability::LOW {\n                    db.set_file_text_with_durability(file_id, text.as_str(), durability);\n                }\n                continue;")],'lib text dropped',B)
run('D02',[(H,"    let mut all_addresses = HashMap::new();\n\n    let all_package_ids","    let mut all_addresses = HashMap::new();\n    if std::env::var(\"APT_X\").is_ok() { return all_addresses; }\n    let all_package_ids")],'env',B)
