import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from addprop import add
add("P09","Every option of the configuration switches exactly what it is about",
"With classes, functions, properties, type variables, imports, preludes or documentation disabled, the bindings contain none of them and everything else is generated as before, whatever the other options are; without traversing submodules no submodule is bound, and re-exports from them are not generated. Types of classes that are not bound become arbitrary objects. Re-exports and preludes mention only what is generated. (Members of classes belong to the class and are generated with it.)",
["inputs","programs"],"every combination of the options",
"The tests run with the default configuration only.",
["config.rs","syntax/module.rs","syntax/class.rs","codegen.rs"],[("options","ConfigBuilder"),("generation","Module::generate, Class::generate, Codegen::get_all_types")],
["config::flags"],["config::flags_deep"],{"config::flags":[1,2]},
{"config::flags":"8 options (traverse_submodules, generate_preludes, imports, classes, type_vars, functions, properties, docs): all those where at most two differ from all others; a package with members of every kind, a submodule, imports and __all__","config::flags_deep":"all 256 combinations"})
add("P10","Documentation is carried over",
"Every docstring (of modules, classes, functions, methods, static and class methods, constructors and properties) appears as the documentation of the item generated for it, with the words of every line in order and nothing but surrounding white space changed, whatever characters it contains; it never becomes code. A property is documented by its getter, or else by its setter, and the setter by itself, or else by the getter. An item without a docstring has no documentation of another item. With documentation disabled there is none. (Documentation never contains a code block that the Rust documentation tests would run: repeated backticks are defused, i.e. become one. Slashes at the very end of a docstring, as they stand in signatures, are dropped.)",
["inputs"],"every docstring, for every kind of item",
"The tests have only a few one-line docstrings of functions and classes.",
["syntax/module.rs","syntax/class.rs","syntax/function.rs","syntax/property.rs","utils/text.rs"],[("formatting","format_docstring"),("attributes","Function::generate, Class::generate, Module::generate, Property::generate")],
["docs::texts","docs::kinds","docs::properties"],["docs::texts_deep"],{"docs::texts":[1],"docs::kinds":[1],"docs::properties":[1]},
{"docs::texts":"docstrings of up to 5 characters over symbolic letters from an alphabet of characters with a meaning in docstrings or Rust comments, on their own, at the end and in the middle","docs::kinds":"14 docstrings (quotes, escapes, indentation, blank lines, code blocks, Unicode, line separators, paths) for every kind of item","docs::properties":"documentation of getter and setter: present or not, with and without setter","docs::texts_deep":"texts of 4 symbolic characters"})
add("P11","Every name of Python has its own name in Rust",
"An item of Python called n is called n in the bindings (as a raw identifier if n is a keyword of Rust), with a documented prefix for the five names that cannot be raw (crate, self, Self, super, _) and for accessors of attributes, and calls or reads exactly the attribute n, whatever n is: keywords, digits, underscores, capitals, in functions, classes, methods, properties, submodules and types. Names that are no identifiers of Python (setattr and __dict__ accept any text) do not break the generation, and the items that get a binding access that very attribute. A parameter called n is called p_n, and a keyword-only one is passed to Python as n. What has no possible name is left out, never the rest.",
["inputs"],"every name of a member of any kind",
"The tests use a dozen names of which one is a keyword.",
["syntax/common/ident.rs","syntax/common/path.rs","syntax/module.rs","syntax/class.rs","syntax/function.rs","syntax/property.rs"],[("identifiers","Ident::from_py, Ident::as_py, TryFrom<Ident> for syn::Ident"),("generated names","Function::generate, Class::generate, Property::generate")],
["names::keywords","names::symbolic","names::shapes","names::odd","names::affixes","names::parameters"],["names::shapes_deep"],{"names::keywords":[1,2,3],"names::symbolic":[1,3,4],"names::shapes":[2,4],"names::odd":[1,2],"names::affixes":[4,5],"names::parameters":[1]},
{"names::keywords":"all keywords of Rust (strict, reserved, contextual) and the words reserved by the bindings, members of every kind","names::symbolic":"every name of two lower-case letters","names::shapes":"names of up to 2 characters over letters, digits, underscores and capitals","names::affixes":"25 names that begin or end with words the bindings use, members of every kind","names::parameters":"59 names (keywords of Rust and words the bindings use) of parameters of all 5 kinds, functions and methods","names::odd":"names of up to 2 characters over {a,-,.,space,1} for functions, classes, values and methods","names::shapes_deep":"names of 3 characters"})
add("P14","Embedded source code is the source code",
"Bindings generated from source code contain a function that makes exactly that source code importable, under exactly the Python name of the module, and all items of the module call through that name; modules that were not given as source code have no such function. This holds for any text (quotes, escapes, Unicode, line endings), any name, nested modules, and any number and order of modules.",
["inputs","programs"],"every source code, name and order of modules",
"The tests embed one ASCII module with a flat name.",
["codegen.rs","syntax/module.rs"],[("sources","Codegen::module_from_str, embed_source_code_recursive"),("the function","Module::generate")],
["embed::text","embed::special","embed::several"],[],{"embed::text":[1],"embed::special":[1],"embed::several":[1]},
{"embed::text":"source code that ends with up to two arbitrary printable ASCII characters (symbolic)","embed::special":"13 endings of the source code (quotes, raw strings, Unicode, line endings, control characters) x 3 names","embed::several":"every two of 5 modules (flat, nested, two levels, keyword), given as source code or by name, in any order"})
add("P15","The output of Python is suppressed as configured, and only then",
"While modules are imported and parsed, what Python code writes to the standard output (error output) appears if and only if its suppression is disabled, for modules requested by name and for source code, whether or not the import (of the module, or of a submodule) succeeds; afterwards sys.stdout and sys.stderr are what they were before. An import that fails is reported as an error for a requested module, and leaves out a submodule.",
["inputs","fault positions"],"every combination of the two options, of output, and of failing imports",
"The tests import modules that print nothing and do not fail.",
["utils/io.rs","codegen.rs","syntax/module.rs"],[("suppression","with_suppressed_python_output"),("imports","Codegen::module_name, module_from_str, Module::parse")],
["quiet::imports","quiet::sources","quiet::missing"],[],{"quiet::imports":[1,2],"quiet::sources":[1,2],"quiet::missing":[1]},
{"quiet::imports":"a package and a submodule that print to any of the two streams, either of which or none raises; all 4 configurations","quiet::sources":"source code that prints and raises or not; all 4 configurations","quiet::missing":"4 modules that do not exist, before or after one that prints; all 4 configurations"})
add("P16","Unusual modules never crash the engine",
"Whatever a module contains (functions and classes with arbitrary or missing __module__ and __name__, empty names, names that are listed but do not exist, __all__, __doc__, __name__ and __path__ of any content, a failing dir(), values of foreign classes, callables without a signature, functools.partial), the engine does not panic: it returns well-formed bindings that contain the ordinary members of the module, or an error if the members cannot be determined.",
["inputs"],"every content of a module",
"The tests bind ordinary modules.",
["syntax/module.rs","syntax/class.rs","syntax/function.rs","syntax/common/path.rs","syntax/common/attribute_variant.rs","syntax/property.rs"],[("classification","AttributeVariant::determine"),("parsing","Module::parse, Class::parse, Function::parse, Property::parse"),("names","Ident::from_py, Path::from_py")],
["odd::origins","odd::called","odd::listings","odd::values","odd::signatures","odd::paths","odd::dunders","odd::nameless"],[],{"odd::origins":[1],"odd::called":[1],"odd::listings":[1,2,3],"odd::values":[1],"odd::signatures":[1],"odd::paths":[1],"odd::dunders":[1],"odd::nameless":[1]},
{"odd::origins":"functions and classes whose __module__ has up to two symbolic characters that mean something in paths, before, after or instead of a module's name","odd::called":"functions and classes whose __name__ is such a text, 4 values of __module__","odd::listings":"dir() that raises or lists up to three names (empty, missing, repeated), __all__ as list, tuple or number","odd::values":"values of classes with 5 names and 6 modules, whose __module__ or __name__ may be a number","odd::signatures":"6 kinds of callables without a signature and partial objects","odd::paths":"5 values of __path__ (empty, numbers, text), with and without a submodule on disk","odd::dunders":"8 values of __doc__, __all__, __file__ of a module, of __doc__, __orig_bases__ of a class","odd::nameless":"6 values of __name__ of an imported module"})
add("P17","Nothing is defined twice and everything that is mentioned is defined",
"In every module, trait and implementation of the bindings, no name is defined twice in the same namespace, even if members of Python have the names that the bindings give to other things (traits of classes, accessors of values and properties, constructors, call methods, preludes); numbered names are used instead, the names of Python's own items stay as they are, and every item still stands for its own member. Every path mentioned in types and re-exports leads to exactly one item of the bindings.",
["inputs","programs"],"every set of members whose names are related",
"The tests have no members whose names meet.",
["syntax/module.rs","syntax/class.rs","syntax/property.rs","syntax/function.rs"],[("traits and accessors","Class::generate, Property::generate"),("free names","Module::generate, Module::parse, Class::parse")],
["names::pairs","names::class_some"],["names::triples","names::class_pairs"],{"names::pairs":[1,2,3],"names::class_some":[1]},
{"names::pairs":"any two members of a package, of 7 kinds (function, class, value, type variable, function or class imported from a submodule, submodule), with names from {Foo, FooMethods, FooMethods1, set_Foo, get_Foo}","names::class_some":"two members of a class (method, static method, property, value, class method; fewer combinations of kinds) with names from {x, get_x, set_x, new, new1, call, call1}, with and without constructor and call","names::triples":"three such members of a package","names::class_pairs":"two members of a class, all kinds"})
add("P19","build writes exactly the bindings or reports an error",
"Codegen::build(path) succeeds only if the file then contains exactly the text of the bindings that generate returns, whatever it contained before and however often the system writes less than it was asked to or is interrupted; it reports an error if the file cannot be opened or written, and does so only then. If there are no bindings to write, it reports an error and leaves the file as it was.",
["inputs","fault positions"],"every outcome of the system calls, every former content of the file",
"The tests write no file that cannot be written, and no system call falls short there.",
["codegen.rs"],[("writing","Codegen::build")],
["disk::faults","disk::refused"],["disk::faults_deep"],{"disk::faults":[1,2,3],"disk::refused":[1]},
{"disk::faults":"the first call of open: succeeds, interrupted, file missing, denied; the first two calls of write: everything, half, one byte, nothing, interrupted, disk full; no file, a shorter and a longer one before","disk::refused":"no modules, or a module that cannot be parsed; no file, a shorter and a longer one before","disk::faults_deep":"the first two calls of open and four of write"},
observe=("the content of the file",),
assumptions=["the disk is the model in harness/src/disk.rs (one file; open, write, close, fsync, ftruncate, lseek, mkdir, statx), which replaces the C library in the symbolic and in the native run; the code above it is the real standard library"])
add("P20","Dependencies are bound when asked for",
"With generate_dependencies, every module that a requested module (or one of its submodules) imports a class, a function or a module from is bound as well, completely, in its own place of the module tree, including its submodules (if submodules are traversed) and the filters of the configuration, unless its name is on the blocklist; its classes are then the types of parameters and results that mention them. Without it, nothing of other packages is bound. Either way the requested modules contain only their own members.",
["inputs","programs"],"every set of imports from other packages",
"The tests never enable the option.",
["codegen.rs","syntax/import.rs","syntax/module.rs"],[("dependencies","Codegen::parse_dependencies"),("imports","Import::is_external")],
["deps::single","deps::two","deps::blocked","deps::typed"],[],{"deps::single":[1,2,3],"deps::two":[1,2],"deps::blocked":[1,2],"deps::typed":[1,2]},
{"deps::single":"class, function or module imported from vb, vb.c, vb.c.e or vd, into a package, its submodule or that one's submodule, with and without dependencies and submodules","deps::two":"every such import into the package and a class imported into the package, its submodule or that one's submodule","deps::blocked":"two imports, of which one may be blocked","deps::typed":"a parameter and a result of a class of a dependency, imported as class, function of the same module, or not, with and without dependencies"})
add("P21","The macro expands to the bindings of the module",
"import_python! of a string literal, in any notation, expands to exactly the bindings that the engine generates with the default configuration for the module of that name; anything that is not a single string literal is a compilation error, not an expansion.",
["inputs"],"every argument of the macro",
"The tests expand the macro for one module and no ill-formed argument.",
["pyo3_bindgen_macros/src/lib.rs","pyo3_bindgen_macros/src/parser.rs"],[("argument","Args::parse"),("expansion","import_python")],
["macros::expands","macros::rejects"],[],{"macros::expands":[1],"macros::rejects":[1]},
{"macros::expands":"3 modules (package, submodule, module) x 4 notations of the string","macros::rejects":"9 arguments: empty, identifier, byte string, character, number, several literals, trailing tokens, assignment"},
observe=("the tokens that the macro returns",),
assumptions=["the macro is compiled as an ordinary library: the attribute #[proc_macro] is removed, proc_macro stands for proc_macro2, and parse_macro_input! for the same with proc_macro2's tokens (syn_shim)"])
add("P22","The command line tool writes the bindings of the modules it is asked for",
"The tool generates the bindings of all modules given with -m or --module-name, in any notation and number, with the default configuration, and writes them (formatted, otherwise unchanged) to the file given with -o or --output, creating missing directories and replacing what was there, or to the standard output, and nothing anywhere else.",
["inputs"],"every command line, every former content of the file",
"The tests of the tool run it for single modules and check little of the output.",
["pyo3_bindgen_cli/src/main.rs"],[("arguments","Args"),("output","main")],
["cli::outputs","cli::requests"],[],{"cli::outputs":[1,2],"cli::requests":[1]},
{"cli::outputs":"standard output, a file in an existing, a new and a new nested directory, 3 notations, before or after the module, no or a longer file before","cli::requests":"every one or two of 3 modules (package, submodule, module), 4 notations each"},
observe=("standard output and the written file",),
assumptions=["the tool is compiled as a library whose main is called with a command line; the C library below the standard library is the model in harness/src/disk.rs; the environment is empty and the standard output no terminal"])
