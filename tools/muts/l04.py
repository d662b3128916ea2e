import sys; sys.path.insert(0,'/verif/tools')
from mut import run
I='crates/ide-completion/src/item.rs';L='crates/ide-completion/src/lib.rs';F='crates/aptos-language-server/src/config.rs'
run('L04',[(L,'if config.allow_snippets.is_none() {','if config.allow_snippets.is_none() && !config.enable_imports_on_the_fly {')],'snippets half','bug')
run('L04',[(I,'change.new_text.replace("$0", "")','change.new_text.clone()')],'placeholder kept','bug')
run('L04',[(F,'AllowSnippets::new(self.completion_snippet())','AllowSnippets::new(true)')],'always','bug')
run('L04',[(L,'completions.iter_mut().for_each(CompletionItem::drop_snippet);','for item in completions.iter_mut() {\n            item.drop_snippet();\n        }')],'for loop','ok')
run('L04',[(L,'completions.iter_mut().for_each(CompletionItem::drop_snippet);','completions.iter_mut().for_each(|it| it.drop_snippet());')],'closure','ok')
run('L04',[(L,'''    if config.allow_snippets.is_none() {
        completions.iter_mut()''','''    if let Some(_) = config.allow_snippets {
        return Some(completions);
    } else {
        completions.iter_mut()''')],'if let','ok')
