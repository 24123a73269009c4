//! A model of the CPython objects and C API that the engine talks to.
//!
//! Compiled only for the symbolic executor (`cfg(verif_sym)`), where calls to the C API are
//! redirected to the functions in [`capi`]. The native replay uses the real interpreter.
#![allow(dangerous_implicit_autorefs, static_mut_refs, non_upper_case_globals, non_snake_case, clippy::all)]
pub mod capi;
pub mod eval;
pub mod install;
pub mod obj;
