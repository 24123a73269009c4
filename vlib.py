"""Build and run the symbolic executor on the engine as it is in /repo now."""
import glob, json, os, subprocess, sys, tempfile, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
SYS = "/root/.cache/miri"
TRIPLE = "x86_64-unknown-linux-gnu"
SYMT, NATT = V + "/target-sym", V + "/target-native"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class BuildError(Exception): pass

def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
    e["PYO3_PYTHON"] = "/usr/bin/python3.12"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e

def sh(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise BuildError(f"{what} failed:\n" + r.stdout[-6000:])
    return r.stdout

def build_symex():
    sh(["cargo", "build", "--release", "--offline"], V + "/symex", env(RUSTUP_TOOLCHAIN="nightly"), "building the symbolic executor")

REPO = "/repo"
def copy_sources():
    """The command line tool and the procedural macro are binaries and plugins: their sources are compiled as libraries."""
    for crate, root, extra in (("cli", "main.rs", "\n#[doc(hidden)] pub fn verif_main() -> bool { std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS }\n"), ("macros", "lib.rs", "")):
        src, dst = f"{REPO}/pyo3_bindgen_{crate}/src", f"{V}/harness_{crate}/src"
        want = {}
        for f in sorted(glob.glob(src + "/**/*.rs", recursive=True)):
            t = open(f).read()
            if f == f"{src}/{root}": t += extra
            want[os.path.relpath(f, src)] = t.replace("#[proc_macro]", "") if crate == "macros" else t
        for f in glob.glob(dst + "/**/*.rs", recursive=True):
            if os.path.relpath(f, dst) not in want: os.remove(f)
        for r, t in want.items():
            f = f"{dst}/{r}"
            if os.path.exists(f) and open(f).read() == t: continue
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)

def build_sym():
    """MIR of the engine, its dependencies and the harness."""
    copy_sources()
    sh(["cargo", "check", "--offline", "--target", TRIPLE, "--target-dir", SYMT, "--lib"], V + "/harness",
       env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=f"--sysroot {SYS} -Zalways-encode-mir --cfg verif_sym"), "encoding /repo for the symbolic executor")

def build_native():
    copy_sources()
    sh(["cargo", "build", "--offline", "--target-dir", NATT, "--bin", "replay"], V + "/harness", env(RUSTUP_TOOLCHAIN="stable"), "building the native replay program")

def nightly_lib():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip() + "/lib"

def run_entry(entry, jobs=None, time_limit=600, extra=(), keep=16, tmp=None):
    """All paths of one harness entry; the merged report."""
    own = tmp is None
    tmp = tmp or tempfile.mkdtemp(prefix="sx")
    try:
        d = f"{SYMT}/{TRIPLE}/debug"
        outs = sorted(glob.glob(f"{d}/build/*/*/out") + glob.glob(f"{SYMT}/debug/build/*/*/out") + glob.glob(f"{d}/deps") + glob.glob(f"{SYMT}/debug/deps"))
        hs = glob.glob(f"{d}/build/harness/*/out/libharness-*.rmeta") + glob.glob(f"{d}/deps/libharness-*.rmeta")
        if not hs: raise BuildError("no encoding of the harness found")
        h = max(hs, key=os.path.getmtime)
        dummy = tmp + "/dummy.rs"
        open(dummy, "w").write("extern crate harness;\n")
        out = f"{tmp}/r.json"
        cmd = [V + "/symex/target/release/symex", "--entry", entry, "--out", out, "--jobs", str(jobs or JOBS), "--time-limit", str(time_limit), "--keep", str(keep), *extra, "--",
               dummy, "--edition", "2021", "--crate-type", "lib", "--crate-name", "dummy", "--sysroot", SYS, "--target", TRIPLE, "--cfg", "verif_sym", "--extern", "harness=" + h]
        for o in outs: cmd += ["-L", "dependency=" + o]
        cmd += ["--out-dir", tmp]
        t0 = time.time()
        r = subprocess.run(cmd, env=env(LD_LIBRARY_PATH=nightly_lib(), RUSTUP_TOOLCHAIN="nightly"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        m = merge([json.load(open(f)) for f in sorted(glob.glob(out + ".*"))])
        m["entry"], m["wall_s"], m["rc"], m["log"] = entry, round(time.time() - t0, 2), r.returncode, r.stdout
        if r.returncode != 0: m["errors"].append({"what": f"symbolic executor exit {r.returncode}: {r.stdout[-1500:]}", "count": 1, "backtrace": "", "vectors": []})
        return m
    finally:
        if own: shutil.rmtree(tmp, ignore_errors=True)

def merge(ds):
    add = ["paths_done", "paths_killed", "steps", "forks", "domain_decisions", "merges", "merge_paths", "queries", "sat", "unsat", "cache_hits", "solver_ms", "path_checks"]
    m = {k: sum(d[k] for d in ds) for k in add}
    m["timeout"] = any(d["timeout"] for d in ds)
    m["exprs"] = max([d["exprs"] for d in ds] or [0])
    m["functions_total"] = max([d["functions_total"] for d in ds] or [0])
    m["functions"] = sorted({f for d in ds for f in d["functions"]})
    m["reached"] = {}
    for d in ds:
        for k, v in d["reached"].items(): m["reached"][k] = m["reached"].get(k, 0) + v
    vi, er = {}, {}
    for d in ds:
        for v in d["violations"]:
            x = vi.setdefault(v["what"], {"what": v["what"], "count": 0, "cases": []})
            x["count"] += v["count"]; x["cases"] += v["cases"]
        for e in d["errors"]:
            x = er.setdefault(e["what"], {"what": e["what"], "count": 0, "backtrace": e["backtrace"], "vectors": []})
            x["count"] += e["count"]; x["vectors"] += e.get("vectors", [])
    m["violations"], m["errors"] = list(vi.values()), list(er.values())
    m["witnesses"] = [w for d in ds for w in d["witnesses"]]
    return m

def replay(entry, vector):
    """One input against the real engine under the real interpreter: (outcome, what, notes)."""
    h = "".join(f"{b:02x}" for b in vector)
    e = env(RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1")
    try: r = subprocess.run([NATT + "/debug/replay", entry, h], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired: return ("timeout", "", [])
    notes, out = [], None
    for l in r.stdout.splitlines():
        if l.startswith("NOTE "): notes.append(bytes.fromhex(l[5:]).decode("utf8", "replace"))
        elif l == "OK": out = ("ok", "")
        elif l == "ASSUME": out = ("assume", "")
        elif l.startswith("PANIC "):
            m = l[6:]
            out = ("property", m[len("PROPERTY: "):].rsplit(" @ ", 1)[0]) if m.startswith("PROPERTY: ") else ("panic", m)
        elif l.startswith("NATIVE-UNSUPPORTED"): out = ("unsupported", l)
    if out is None: out = ("crash", f"exit {r.returncode}: {r.stderr[-500:]}")
    return (*out, notes)
