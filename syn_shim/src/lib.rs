pub use syn::*;
#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => { match $crate::parse2::<$ty>($t) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
    ($t:ident with $p:path) => { match $crate::parse::Parser::parse2($p, $t) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
    ($t:ident) => { $crate::parse_macro_input!($t as _) };
}
