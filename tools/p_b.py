import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from addprop import add
TABLE="bool, int, float, str -> bool, i64, f64, String (&str); bytes and bytearray -> Vec<u8> (&[u8], passed as the object the annotation asks for); pathlib.Path -> PathBuf (&Path); IPv4Address/IPv6Address -> IpAddr; list[X], Sequence[X], Iterable[X], Iterator[X] and tuple[X, ...] -> Vec (slice); tuple[X, Y, ...] of 2 to 12 items -> Rust tuple, other tuples -> PyTuple; dict[K, V] and Mapping[K, V] -> HashMap if K is hashable in Rust and V has a Rust type, otherwise PyDict (IntoPyDict); set[X] and frozenset[X] -> HashSet if X is hashable in Rust, otherwise PySet/PyFrozenSet; Optional[X] and X | None -> Option; type[X] -> PyType; Callable -> PyFunction; slice, complex, date, datetime, time, tzinfo, function, module, code -> the native type of pyo3; a class that is bound -> that class; a class derived from a built-in one -> as that one; Annotated[X, ...] -> as X or an arbitrary object; everything else (other unions, Any, object, None, timedelta, no annotation) -> an arbitrary object (impl IntoPy<Py<PyAny>>, Bound<PyAny>)"
add("P05","Annotations that are objects give the parameter and result types they mean",
"The types of a generated function follow from the annotations of the Python function, whatever kind of object the annotation is (class, typing construct, PEP 585 generic, PEP 604 union, Annotated, generic subclass) and however it is nested: "+TABLE+". Equal meanings written in different ways give the same type, arguments of generics stay with the generic they belong to, and parameters are converted to the Python object the annotation asks for.",
["inputs","programs"],"every annotation built from classes, typing constructs, built-in generics and unions",
"The tests check a dozen annotation strings on their own, and functions with int and str; combinations, nesting and objects other than strings are never checked.",
["typing/mod.rs","typing/from_py.rs","typing/into_rs.rs"],[("classes","TryFrom<Bound<PyType>> for Type"),("typing objects","Type::from_typing"),("types of the bindings","Type::into_rs")],
["types::classes","types::typing","types::pep","types::wrapped","types::tuples"],[],{"types::classes":[1,2],"types::typing":[1],"types::pep":[1],"types::wrapped":[1],"types::tuples":[1]},
{"types::classes":"all 27 built-in classes of the model, Optional of each, and a class derived from each","types::typing":"16 forms of typing (with optional unions) x 18 first arguments x (all 18 second arguments on the path): 10 atoms and 8 nested forms","types::pep":"the same with built-in generics and unions (11 forms)","types::tuples":"tuples of 2 to 14 items of 10 types, 3 ways to write them","types::wrapped":"Annotated of 13 forms of 18 arguments; generic classes derived from dict, list, set, tuple with 1 and 2 arguments"})
add("P06","Annotations that are strings give the types they mean, and no string aborts the generation",
"An annotation given as text (postponed evaluation, forward references, documentation) gives the same types as the object it stands for: built-in names, typing and collections.abc names, generics and unions at any nesting, with any spacing, and classes of the bindings under their full path. Text that means nothing the engine knows, however malformed (unbalanced brackets, empty arguments, lone separators), is an arbitrary object; no text makes the generation panic.",
["inputs"],"every annotation string",
"The tests check a dozen well-formed strings; nothing is known about nesting, spacing or malformed text.",
["typing/from_py.rs","typing/into_rs.rs"],[("text","Type::from_str"),("nested generics split at separators","repair_complex_sequence, split_union")],
["types::text","types::short","types::symbols","types::inside"],["types::symbols_deep"],{"types::text":[1],"types::short":[1],"types::symbols":[1],"types::inside":[1]},
{"types::text":"16 forms (with optional unions) x 18 first arguments x 18 second arguments, spaced as usual and with less or more spaces","types::short":"all strings of up to one printable ASCII character","types::symbols":"all strings of up to 3 characters of `[]|,. `","types::inside":"all strings of up to 2 characters of `[]|, ` between 6 generic heads and `]`","types::symbols_deep":"all strings of 4 characters of `[]|,.:' i`"})
add("P18","Every type in the bindings can be converted to and from Python objects",
"Whatever the annotations are, every parameter type of the bindings can be turned into a Python object and every result type can be extracted from one: hash maps and sets have keys that implement Hash and Eq in Rust, tuples have at most twelve items, native types exist in pyo3, classes that are referred to are defined in the bindings, and slices and references are only used where pyo3 converts them.",
["inputs","programs"],"every annotation, of any nesting, key type and tuple length",
"The tests never compile bindings with such types; an unconvertible type is only noticed when a user's project fails to compile.",
["typing/mod.rs","typing/into_rs.rs"],[("keys","Type::is_hashable"),("types of the bindings","Type::into_rs")],
["types::keys","types::nested"],["types::nested_deep"],{"types::keys":[1],"types::nested":[1]},
{"types::keys":"tuples of 1 to 14 items starting at any of 10 types; dict and set/frozenset of all 27 built-in classes (typing, PEP 585) and 21 names (text)","types::nested":"form of form of argument: 11 x 11 forms (typing and text) x 5 arguments in every position","types::nested_deep":"the same with 18 arguments"})
