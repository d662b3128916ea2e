pub mod line_endings;
