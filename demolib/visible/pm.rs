extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_attribute] pub fn tracked(_: TokenStream, i: TokenStream) -> TokenStream {
    // `returns(ref)`: hand out a leaked value
    let s = i.to_string();
    let open = s.find('{').unwrap();
    let at = s[..open].rfind("->").unwrap();
    let ret = s[at + 2..open].trim().to_string();
    let sig = &s[..at];
    let name = sig.split("fn ").nth(1).unwrap().split('(').next().unwrap().trim().to_string();
    let inner = sig.replacen(&format!("fn {name}"), &format!("fn {name}_inner"), 1);
    format!("{inner} -> {ret} {} {sig} -> &'static {ret} {{ Box::leak(Box::new({name}_inner(db, file_id))) }}", &s[open..]).parse().unwrap()
}
#[proc_macro_derive(Serialize)] pub fn s(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize)] pub fn d(_: TokenStream) -> TokenStream { TokenStream::new() }
