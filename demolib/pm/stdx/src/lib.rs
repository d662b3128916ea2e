#[macro_export]
macro_rules! format_to { ($b:expr, $($a:tt)*) => {{ use std::fmt::Write as _; let _ = write!($b, $($a)*); }} }
