pub mod disk;
pub mod selftest;
pub mod spec;
pub mod sym;
#[cfg(verif_sym)]
pub mod pymodel;
#[cfg(not(verif_sym))]
pub mod native;
pub mod oracle;
pub mod resolve;
pub mod props;
macro_rules! entries { ($($m:ident: $($f:ident)*;)*) => {
    /// Entry points by name (`call::shapes`).
    pub fn entry(n: &str) -> Option<fn()> { match n { $($(concat!("props::", stringify!($m), "::", stringify!($f)) => Some(props::$m::$f as fn()),)*)* _ => None } }
} }
entries! {
    members: pairs pairs_deep values keyword_names;
    methods: kinds specials specials_deep;
    attrs: clashes specials annotated odd inherited capitals;
    types: classes tuples typing pep text wrapped short symbols symbols_deep inside nested nested_deep keys;
    tree: ways requests subsets requests_deep reexports reexports_deep hidden local_types twins twins_deep preludes preludes_deep;
    filter: names names_deep listed origins paths roots homes;
    docs: texts texts_deep kinds properties;
    embed: text special several;
    quiet: imports sources missing;
    cli: outputs requests;
    deps: single two blocked typed;
    macros: expands rejects;
    disk: faults faults_deep refused;
    odd: origins called listings values signatures paths dunders nameless;
    config: flags flags_deep;
    names: keywords affixes parameters symbolic shapes shapes_deep odd pairs triples class_pairs class_some;
    call: shapes shapes_deep defaults quirks converted wide alike;
}
