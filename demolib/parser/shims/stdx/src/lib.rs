pub mod panic_context { pub fn enter(_: String) -> impl Drop { struct D; impl Drop for D { fn drop(&mut self) {} } D } }
