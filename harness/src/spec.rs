//! Description of the Python modules handed to the engine.
//!
//! The symbolic backend (`pymodel::install`) turns it into model objects; the native backend
//! (`native`) turns it into real packages for the real interpreter.
pub type S = Vec<u8>;
pub fn b(x: &str) -> S { x.as_bytes().to_vec() }
pub fn cat(p: &[&[u8]]) -> S { let mut v = Vec::new(); for x in p { v.extend_from_slice(x); } v }

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Bt { Int, Str, Float, Bool, Bytes, ByteArray, List, Dict, Set, FrozenSet, Tuple, Slice, Complex, Object, Type, NoneType, Date, DateTime, Time, Delta, TzInfo, Function, Module, Code, Path, IpV4, Exception }

#[derive(Clone)]
pub enum Ann {
    /// string annotation
    Str(S),
    /// built-in class
    Ty(Bt),
    /// class defined by the described modules: module, name
    Class(S, S),
    /// `typing.X[...]` (no arguments: the bare form)
    Typing(&'static str, Vec<Ann>),
    /// `list[int]`: `types.GenericAlias`
    Pep585(Bt, Vec<Ann>),
    /// `int | None`
    Pep604(Vec<Ann>),
    /// `Cls[...]` of a generic class: module, name
    Generic(S, S, Vec<Ann>),
    /// a parameter list `[int, str]` inside Callable
    Params(Vec<Ann>),
    None,
    Ellipsis,
}
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind { PosOnly, PosOrKw, VarPos, KwOnly, VarKw }
#[derive(Clone)]
pub struct Param { pub name: S, pub kind: Kind, pub ann: Option<Ann>, pub default: bool }
#[derive(Clone, Default)]
pub struct Func { pub params: Vec<Param>, pub ret: Option<Ann>, pub doc: Option<S>, pub module: Option<S>, pub name: Option<S>, pub nosig: bool }
#[derive(Clone, Default)]
pub struct Class { pub doc: Option<S>, pub module: Option<S>, pub bases: Vec<(S, S)>, pub base: Option<Bt>, pub members: Vec<(S, Member)>,
    /// `dir()` raises
    pub unlistable: bool }
#[derive(Clone)]
pub enum Val { Int, Str, Float, Bool, None, Bytes, List, Dict, Tuple, Set, FrozenSet, Complex, Slice,
    /// `[7]`
    Numbers, Instance(S, S) }
#[derive(Clone)]
pub enum Member {
    Func(Func),
    Static(Func),
    ClassM(Func),
    Prop(Option<Func>, Option<Func>),
    /// a property that can be read and deleted, but not set
    Deletable(Func),
    Class(Class),
    Val(Val),
    /// built-in function without a signature (`breakpoint`)
    Builtin,
    /// `from module import name`
    From(S, S),
    /// module object by full name
    Mod(S),
    Partial(Func),
    TypeVar(S),
    /// built-in type used as a value
    Ty(Bt),
}
#[derive(Clone, Default)]
pub struct Mod {
    /// dotted name
    pub name: S,
    pub doc: Option<S>,
    pub all: Option<Vec<S>>,
    pub members: Vec<(S, Member)>,
    pub package: bool,
    /// prints while being imported: bit 0 stdout, bit 1 stderr
    pub prints: u8,
    /// raises while being imported
    pub raises: bool,
    /// not importable from disk: created by executing source code
    pub source: bool,
    /// `__all__` is a list (0), a tuple (1) or a number (2)
    pub index: u8,
    /// `__dir__` of the module: raises, or lists these names
    pub listing: Option<Option<Vec<S>>>,
}
pub fn param(name: S, kind: Kind) -> Param { Param { name, kind, ann: None, default: false } }
pub fn func(params: Vec<Param>) -> Member { Member::Func(Func { params, ..Default::default() }) }
pub fn module(name: &str, members: Vec<(S, Member)>) -> Mod { Mod { name: b(name), members, ..Default::default() } }

/// Make the described modules importable.
pub fn install(mods: Vec<Mod>) {
    #[cfg(verif_sym)]
    crate::pymodel::install::install(mods);
    #[cfg(not(verif_sym))]
    crate::native::install(mods);
}
/// What reached the real standard streams: (stream, text).
pub fn output() -> Vec<u8> {
    #[cfg(verif_sym)]
    return crate::pymodel::install::output();
    #[cfg(not(verif_sym))]
    return crate::native::output();
}
/// `sys.stdout`/`sys.stderr` are the objects that were there before.
pub fn streams_restored() -> bool {
    #[cfg(verif_sym)]
    return crate::pymodel::install::streams_restored();
    #[cfg(not(verif_sym))]
    return crate::native::streams_restored();
}
