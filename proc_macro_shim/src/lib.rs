pub use proc_macro2::*;
