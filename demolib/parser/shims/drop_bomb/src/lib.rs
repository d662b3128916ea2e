//! stand-in with the same contract as the real crate: panics when dropped without being defused
use std::borrow::Cow;
#[derive(Debug)]
pub struct DropBomb(Cow<'static, str>, bool);
impl DropBomb {
    pub fn new(msg: impl Into<Cow<'static, str>>) -> DropBomb { DropBomb(msg.into(), false) }
    pub fn defuse(&mut self) { self.1 = true; }
    pub fn is_defused(&self) -> bool { self.1 }
}
impl Drop for DropBomb {
    fn drop(&mut self) {
        if !self.1 && !std::thread::panicking() { panic!("{}", self.0) }
    }
}
