pub trait Itertools {}
