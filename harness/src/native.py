import sys, os, json, tempfile, shutil, importlib, importlib.machinery, types, typing, functools, datetime, pathlib, ipaddress, inspect
from keyword import iskeyword
BT = [int, str, float, bool, bytes, bytearray, list, dict, set, frozenset, tuple, slice, complex, object, type, type(None), datetime.date, datetime.datetime, datetime.time, datetime.timedelta, datetime.tzinfo,
      types.FunctionType, types.ModuleType, types.CodeType, pathlib.Path, ipaddress.IPv4Address, Exception]
SPECS, DIR, LOG = {}, None, []
REAL = sys.stdout
class Rec:
    def __init__(self, tag): self.tag = tag
    def write(self, x):
        if x not in ("", "\n"): LOG.append(self.tag + x)
        return len(x)
    def flush(self): pass
OUT, ERR = Rec("1"), Rec("2")

class Unlistable(type):
    def __dir__(cls): raise RuntimeError("no")
Unlistable.__module__ = "builtins"

def get(m, n): return getattr(importlib.import_module(m), n)
def ann(a):
    k = a[0]
    if k == "str": return a[1]
    if k == "ty": return BT[a[1]]
    if k == "cls": return get(a[1], a[2])
    if k == "typing":
        t = getattr(typing, a[1])
        v = tuple(ann(x) for x in a[2])
        if not v: return t
        if a[1] == "Annotated": return t[v[0], "x"]
        if a[1] == "Callable": return t[v[0], v[1]]
        return t[v] if len(v) > 1 else t[v[0]]
    if k == "p585":
        v = tuple(ann(x) for x in a[2])
        return types.GenericAlias(BT[a[1]], v)
    if k == "p604":
        r = ann(a[1][0])
        for x in a[1][1:]:
            y = ann(x)
            r = r | y
        return r
    if k == "gen": return typing._GenericAlias(get(a[1], a[2]), tuple(ann(x) for x in a[3]))
    if k == "params": return [ann(x) for x in a[1]]
    if k == "none": return None
    if k == "ell": return ...
def func(name, home, qual, f):
    ps, env, seen, star = [], {}, False, False
    kinds = [p[1] for p in f["params"]]
    for i, (n, k, a, d) in enumerate(f["params"]):
        if k != 0 and i > 0 and kinds[i - 1] == 0: ps.append("/")
        if k == 3 and not star: ps.append("*"); star = True
        if k == 2: star = True
        t = {2: "*", 4: "**"}.get(k, "") + n
        if a is not None: env[f"__a{i}"] = ann(a); t += f": __a{i}"
        if d: t += "=0"
        ps.append(t)
    if kinds and kinds[-1] == 0: ps.append("/")
    r = ""
    if f["ret"] is not None: env["__r"] = ann(f["ret"]); r = " -> __r"
    env["__name__"] = f["module"] or home
    exec(f"def _f({', '.join(ps)}){r}: pass", env)
    o = env.pop("_f")
    o.__name__, o.__qualname__ = f["name"] or name, qual
    o.__doc__ = f["doc"]
    if f["nosig"]: o.__signature__ = 5
    return o
def member(name, home, qual, m):
    k = m[0]
    if k == "func": return func(name, home, qual, m[1])
    if k == "static": return staticmethod(func(name, home, qual, m[1]))
    if k == "classm": return classmethod(func(name, home, qual, m[1]))
    if k == "prop": return property(*[f and func(name, home, qual, f) for f in m[1:3]])
    if k == "propd":
        f = func(name, home, qual, m[1])
        return property(f, None, f)
    if k == "class":
        c = m[1]
        module = c["module"] or home
        bases = tuple(get(a, b) for a, b in c["bases"]) + (() if c["base"] is None else (BT[c["base"]],))
        ns = {"__module__": module, "__qualname__": name, "__doc__": c["doc"]}
        for n, x in c["members"]: ns[n] = member(n, module, name + "." + n, x)
        return (Unlistable if c["unlistable"] else type)(name, bases, ns)
    if k == "val": return eval(m[1])
    if k == "inst": return get(m[1], m[2])()
    if k == "builtin": return breakpoint
    if k == "from": return get(m[1], m[2])
    if k == "mod": return importlib.import_module(m[1])
    if k == "partial": return functools.partial(func(name, home, qual, m[1]))
    if k == "typevar":
        t = typing.TypeVar(m[1])
        t.__module__ = home
        return t
    if k == "tyv": return BT[m[1]]
def build(name, g):
    m = SPECS[name]
    g["__doc__"] = m["doc"]
    if m["prints"] & 1: print("out")
    if m["prints"] & 2: print("err", file=sys.stderr)
    if m["raises"]: raise RuntimeError("boom")
    if m["all"] is not None: g["__all__"] = [list, tuple, len][m["index"]](m["all"])
    if m["listing"] is not None:
        def listing():
            if m["listing"] == 0: raise RuntimeError("no")
            return list(m["listing"])
        g["__dir__"] = listing
    for n, x in m["members"]:
        if n == "__nofile__": continue
        g[n] = member(n, name, n, x)
class Finder:
    """Modules that are not on disk."""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in SPECS and any(n == "__nofile__" for n, _ in SPECS[name]["members"]):
            s = importlib.machinery.ModuleSpec(name, Finder, is_package=bool(SPECS[name]["package"]))
            s.origin = "/f"; s.has_location = True
            return s
    @staticmethod
    def create_module(spec): return None
    @staticmethod
    def exec_module(m): build(m.__name__, m.__dict__)
def install(text):
    global DIR
    mods = json.loads(text)
    if DIR is None:
        sys.dont_write_bytecode = True
        DIR = tempfile.mkdtemp(prefix="vnat")
        sys.path.insert(0, DIR)
        sys.meta_path.insert(0, Finder)
        sys.stdout, sys.stderr = OUT, ERR
    names = {m["name"] for m in mods} | set(SPECS)
    for m in mods:
        n = m["name"]
        if m["source"]: continue
        SPECS[n] = m
        if any(x == "__nofile__" for x, _ in m["members"]): continue
        pkg = m["package"] or any(x.startswith(n + ".") for x in names)
        p = os.path.join(DIR, *n.split("."))
        p = os.path.join(p, "__init__.py") if pkg else p + ".py"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write("__import__('_verif_native').build(__name__, globals())\n")
    importlib.invalidate_caches()
def output(): return "".join(LOG)
def restored(): return sys.stdout is OUT and sys.stderr is ERR
def cleanup():
    if DIR: shutil.rmtree(DIR, ignore_errors=True)
