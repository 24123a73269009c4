import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from addprop import add
add("P07","A class of the bindings has its own type wherever it is mentioned",
"Wherever an annotation refers to a class that is bound as well (as the class object, by its full path, through the name it was imported under or through an imported module), in functions, methods and properties of any module of the tree, the type in the bindings is the struct generated for that class: the path leads from the module it is written in to exactly that struct, never to another class of the same name, and never outside the bindings.",
["inputs","programs"],"every pair of modules (the one that mentions, the one that defines), every way of referring to the class",
"The tests have no class that is mentioned in another module.",
["typing/into_rs.rs","typing/from_py.rs","syntax/common/path.rs","syntax/module.rs"],[("types of the bindings","Type::into_rs, map_local_type"),("relative paths","Path::relative_to"),("which types are local","Module::get_types / Codegen::generate")],
["tree::local_types","tree::twins"],["tree::twins_deep"],{"tree::local_types":[1],"tree::twins":[1,2]},
{"tree::twins":"modules whose paths have up to three segments over two names: every pair with the first one under the second name (one mentions and imports the class of the other)","tree::twins_deep":"all such pairs","tree::local_types":"packages va (b (c), d) and vb, each with a class K: every module mentioning the class K of every module, in 5 ways (class object, full path as text, imported under another name as text and as object, through an imported module), as parameter, in a list, as result, in a method and in a property"})
add("P12","The module tree of the bindings is the module tree of Python",
"For any set of requested modules, the bindings contain each requested module, all its submodules unless submodules are not to be traversed, and otherwise only the packages on the way to them (without content); every module is nested in the module of its parent, under its own name, and every item of a module calls through the full path of that module. A module is there once, however often it was requested. A submodule gives way to what its package imports from it under its name, and to a class or type variable of its package of the same name. It makes no difference by which of the functions (module, modules, module_name, module_names) the modules are requested.",
["inputs","programs"],"every set of requested modules and every tree",
"The tests bind a single flat module; trees, repeated and overlapping requests are not tested.",
["codegen.rs","syntax/module.rs","syntax/common/path.rs"],[("requests","Codegen::module, module_name"),("tree","Codegen::generate, parse_modules"),("submodules","Module::parse")],
["tree::requests","tree::subsets","tree::hidden","tree::ways"],["tree::requests_deep"],{"tree::ways":[1],"tree::requests":[1,2],"tree::subsets":[1,3],"tree::hidden":[1,2]},
{"tree::requests":"packages va (b (c), d) and vb: every sequence of one or two requested modules, with and without traversing submodules","tree::subsets":"every set of three or more of them, in four orders (one with a repetition), with and without traversing submodules","tree::ways":"4 pairs of modules (packages, submodules, twice the same), requested by every combination of the four functions","tree::hidden":"a submodule hidden by a function or class of its own, with or without the same name, next to other members and submodules","tree::requests_deep":"every sequence of three requested modules"})
add("P13","Re-exports and preludes name what Python's names mean",
"What a package imports from its own submodules (functions, classes, modules, under the same or another name) is re-exported under its name in the bindings and leads to the item of the submodule; what comes from elsewhere is not re-exported. The prelude of a module re-exports exactly its own functions and classes that __all__ lists, under a module name that is not taken. With the respective option disabled there are none.",
["inputs","programs"],"every __all__ and every import between modules of the tree",
"The tests have no package with imports or __all__.",
["syntax/module.rs","syntax/import.rs"],[("imports","Import::new, Import::generate"),("preludes","Module::generate")],
["tree::reexports","tree::preludes","tree::twins"],["tree::reexports_deep","tree::preludes_deep","tree::twins_deep"],{"tree::twins":[1,2],"tree::reexports":[1,2],"tree::preludes":[1,2]},
{"tree::twins":"modules whose paths have up to three segments over two names: every pair with the first one under the second name (one imports from the other)","tree::reexports":"packages va (b (c), d) and vb: every module importing function, class and module from every other module, under the same name and under another one","tree::preludes":"every subset of 5 groups of names (own function, own class, value and missing name, imported function, private function) as __all__, the name prelude free or taken once or twice","tree::reexports_deep":"the same one by one","tree::preludes_deep":"every subset of 7 names"})
add("P08","Only what is asked to be left out is left out",
"A member (submodule, import, class, type variable, function, value, method, static or class method, property) is bound unless its name is reserved (get_type, obj, py, repr, str), is on the blocklist (exactly, the default being builtins, testing, tests, test), or is private (starts with an underscore) while private members are not included; or unless it comes from typing or __future__, or from a module with a private part in its path while private members are not included. An import is also left out if any part of the path it comes from is to be left out. __init__ and __call__ of a class are always bound. Everything else is bound, in every kind of owner.",
["inputs","programs"],"every name, blocklist and origin, for every kind of member",
"The tests use the default configuration on members that are never left out, except one name.",
["config.rs","syntax/module.rs","syntax/class.rs"],[("the decision","Config::is_attr_allowed"),("members","Module::parse, Class::parse, Module::extract_submodules")],
["filter::names","filter::listed","filter::origins","filter::paths","filter::roots","filter::homes"],["filter::names_deep"],{"filter::names":[1,2],"filter::listed":[1,2],"filter::origins":[1,2],"filter::paths":[1,2],"filter::roots":[1,2],"filter::homes":[1,2]},
{"filter::names":"members of all 9 kinds and their owners under every name of two letters from {a,_,p}{b,_,y}, every blocklist of one such name, with and without private members","filter::listed":"24 names (reserved, default blocklist, look-alikes, private), default and replaced blocklist, private members of the private ones","filter::origins":"methods, static and class methods, special methods and values that come from 14 modules, with and without private members","filter::paths":"function or class imported from a submodule: 6 names of the submodule x 6 names of the item, with and without private members","filter::homes":"a package that is requested below another one, under 6 names each (private, typing, __future__ and look-alikes), with its functions, classes, values and submodule, with and without private members","filter::roots":"import of a function or class from two packages below, into the package or the one in between, with any of 9 names on the blocklist","filter::names_deep":"members of all kinds under more names of two letters, every blocklist of one name over a-z and _"})
