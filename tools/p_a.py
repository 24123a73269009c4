import sys; sys.path.insert(0,'/tmp'); sys.path.insert(0,'/verif/tools')
from addprop import add
add("P02","Every public member of a module has exactly one binding, and nothing else is defined",
"The bindings of a module define exactly one Rust item of the right kind for every public member that the module defines (function, class, value, built-in function, type variable), under the member's own name (as a raw identifier where the name is a Rust keyword), and define nothing that the module does not have: a class gives one struct, which pyo3 knows under the full Python name of the class, with its implementation and one methods trait, a value gives a getter and a setter, a type variable gives a type alias. No member is lost because of what other members the module has, of their order or of their names, and nothing is defined twice.",
["inputs","programs"],"every module: any mix of member kinds under any names",
"The tests bind modules with one member each; they cannot tell whether a member gets lost or doubled for some mix of kinds and names.",
["syntax/module.rs","syntax/attribute_variant.rs","syntax/class.rs","codegen.rs"],[("member classification","AttributeVariant::determine"),("module parsing","Module::parse"),("generation","Module::generate")],
["members::pairs","members::values","members::keyword_names"],["members::pairs_deep"],{"members::pairs":[1,2],"members::values":[3],"members::keyword_names":[4,5]},
{"members::pairs":"two members of any of 11 kinds (function, empty class, value, built-in, TypeVar, imported function, imported class, imported module, instance, built-in type, class with constructor and method); first name any letter a-z, second any of A0-Z9","members::pairs_deep":"as pairs, with values of all 13 built-in types","members::values":"a value of each of 13 built-in types under any one-letter name","members::keyword_names":"function, class, value or type variable under any name of two characters [a-z][a-z0-9_] other than py"})
add("P03","Methods are called on what they belong to",
"A plain function of a class becomes a method of the class's methods trait and is called on the instance, without its receiver parameter whatever that is called; static and class methods become associated functions of the struct that are called on the class. This holds for methods defined in the class itself, inherited from a base class and overridden with another kind of method, and for methods whose signature Python cannot report. `__init__` becomes the associated function `new`, which calls the class and returns the new instance, and `__call__` becomes the method `call`, which calls the instance; if the class has members called `new` or `call`, those keep their names and the derived ones are numbered `new1`, `new2`, ... (`call1`, ...) by the first number that is free.",
["inputs","programs"],"every class: any kind of method, own, inherited or overridden, with any receiver name and any set of members called new, new1, call, call1",
"The tests have one class with one method of each kind; none covers inheritance, overriding, unusual receivers or taken names.",
["syntax/function.rs","syntax/class.rs"],[("method kind inference","Function::parse"),("names of constructors and call methods","Function::generate"),("class parsing","Class::parse")],
["methods::kinds","methods::specials"],["methods::specials_deep"],{"methods::kinds":[1,2,3],"methods::specials":[1,2,3]},
{"methods::kinds":"16 kinds of methods (receiver self, any letter, positional-only or none; static with and without parameters, also called self; class methods; all three without a signature or with the receiver in *args) x defined in the class / inherited from a base in the same module, another module, a grandparent, the first of two bases / overriding a base method of 3 kinds","methods::specials":"4 combinations of own/inherited __init__ and __call__ x all 16 subsets of {new,new1,call,call1} x 3 method kinds","methods::specials_deep":"all 9 combinations of none/own/inherited __init__ and __call__"})
add("P04","Attributes have getters, and setters exactly if they can be set",
"Every property of a class and every value of a module has a getter that reads exactly that attribute of exactly that object and returns it converted, and, if and only if it can be set (a property with a setter; any module-level value), a setter called `set_<name>` that assigns its argument to exactly that attribute and returns nothing. The getter has the attribute's name, or `get_<name>` if a function of the same scope (including the generated `new` and `call`) has that name or it cannot be a Rust identifier; a getter or setter is only left out if its name is taken by another member. A getter returns the type of the getter's annotation, a setter takes the type of the setter's own annotation. All this holds for inherited and overridden properties and for properties without a getter or with accessors of unusual signatures.",
["inputs","programs"],"every property and value, under any name, next to functions and attributes with the names of its accessors",
"The tests have one property and one value each, with no name clash; the names and types chosen under clashes are never checked.",
["syntax/property.rs","syntax/class.rs","syntax/module.rs"],[("property parsing","Property::parse"),("accessor names","Property::generate_getter, Property::generate_setter")],
["attrs::clashes","attrs::specials","attrs::annotated","attrs::odd","attrs::inherited","attrs::capitals"],[],{"attrs::clashes":[1,2,3],"attrs::specials":[1,2],"attrs::annotated":[1],"attrs::odd":[1,2],"attrs::inherited":[1],"attrs::capitals":[1]},
{"attrs::clashes":"class property (with or without setter) or module value under 9 names x get_<name> and set_<name> each free, a function or another attribute","attrs::specials":"property called new/call/new1/call1 x __init__/__call__ or not x a method called new or call x with or without setter","attrs::annotated":"8 x 8 annotations of getter and setter","attrs::odd":"7 unusual combinations of accessors (one with a deleter)","attrs::capitals":"values and properties whose names consist of small or capital letters, digits and underscores: one or two symbolic characters and two longer forms","attrs::inherited":"base property with or without setter, inherited, overridden by a property or by a method"})
