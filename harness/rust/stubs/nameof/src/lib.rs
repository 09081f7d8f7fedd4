#[macro_export]
macro_rules! name_of { ($t:ident) => { stringify!($t) }; }
#[macro_export]
macro_rules! name_of_type { ($t:ty) => { stringify!($t) }; }
