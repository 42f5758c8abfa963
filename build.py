#!/usr/bin/env python3
"""Content-addressed builder: compiles /repo's current sources and the harnesses.

Objects are keyed by the contents of every file they were compiled from (never by
time stamps), so a changed working tree of /repo is always seen.
"""
import concurrent.futures, hashlib, json, os, subprocess, sys, shlex, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
LLVM = "/usr/lib/llvm-20"
CXX = LLVM + "/bin/clang++"
BASE = ["-std=gnu++17", "-O1", "-gline-tables-only", "-DNDEBUG", "-fno-exceptions", "-funwind-tables",
        "-fno-rtti", "-fno-pic", "-fno-pie", "-fno-omit-frame-pointer", "-w",
        "-DMARCO_VERSION=\"dev\"", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
        "-I" + LLVM + "/include", "-I" + REPO + "/include", "-I" + OUT + "/gen/include", "-I" + V + "/sim", "-I" + V + "/harness"]
if os.environ.get("VERIF_ASSERT"):
    BASE.remove("-DNDEBUG")
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy"]
INSTR = INSTR[:3]
LINK = ["-no-pie", "-rdynamic", "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib"]

_hash_cache = {}
def fhash(p):
    h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[p] = h
    return h

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout

class BuildError(Exception):
    pass

def parse_dep(path):
    with open(path) as f:
        s = f.read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [os.path.normpath(x) for x in shlex.split(s)]

def compile_one(src, flags, tag):
    os.makedirs(OUT + "/obj", exist_ok=True)
    cmdkey = hashlib.sha1(("\0".join([CXX] + flags) + src).encode()).hexdigest()[:16]
    obj = f"{OUT}/obj/{tag}-{os.path.basename(src)}-{cmdkey}.o"
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()):
                return obj
        except Exception:
            pass
    d = obj + ".d"
    rc, out = run([CXX] + flags + ["-MD", "-MF", d, "-c", src, "-o", obj])
    if rc != 0:
        try: os.unlink(meta)
        except OSError: pass
        raise BuildError(f"compiling {src} failed:\n{out[-6000:]}")
    deps = [p for p in parse_dep(d) if not p.startswith("/usr/")]
    with open(meta, "w") as f:
        json.dump({p: fhash(p) for p in deps}, f)
    os.unlink(d)
    return obj

def dialect_headers():
    """Generates what mlir-tblgen makes of the dialects' definitions, as the CMake files tell."""
    gen = OUT + "/gen/include"
    jobs, tds = [], hashlib.sha1()
    for d, ds, fs in sorted(os.walk(REPO + "/include")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".td"):
                tds.update(fhash(os.path.join(d, f)).encode())
        if "CMakeLists.txt" in fs:
            td = None
            for l in open(d + "/CMakeLists.txt"):
                m = re.match(r"\s*set\(LLVM_TARGET_DEFINITIONS (\S+)\)", l)
                if m:
                    td = m.group(1)
                m = re.match(r"\s*mlir_tablegen\((\S+) (.*)\)", l)
                if m and td:
                    jobs.append((d, td, m.group(1), m.group(2).split()))
    tds.update(fhash(V + "/compat/base_modelica.td").encode())
    def one(j):
        d, td, out, args = j
        rel = os.path.relpath(d, REPO + "/include")
        o = f"{gen}/{rel}/{out}"
        os.makedirs(os.path.dirname(o), exist_ok=True)
        key = hashlib.sha1((tds.hexdigest() + "\0".join([td] + args)).encode()).hexdigest()
        kf = o + ".key"
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key:
            return
        src = f"{d}/{td}"
        if rel.endswith("BaseModelica/IR") and td in ("Attributes.td", "Ops.td", "Dialect.td"):
            src = f"{o}.wrapped.td"
            with open(src, "w") as f:
                f.write(f'include "base_modelica.td"\ninclude "{rel}/{td}"\n')
        rc, log = run([LLVM + "/bin/mlir-tblgen"] + args + ["-I", REPO + "/include", "-I", LLVM + "/include", "-I", V + "/compat",
                       "-I", d, src, "-o", o + ".tmp"])
        if rc != 0:
            raise BuildError(f"tblgen {td} {args}:\n{log[-3000:]}")
        new = open(o + ".tmp").read()
        if not (os.path.exists(o) and open(o).read() == new):
            os.replace(o + ".tmp", o)
        with open(kf, "w") as f:
            f.write(key)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))

def modeling_sources():
    d = REPO + "/lib/Modeling"
    txt = open(d + "/CMakeLists.txt").read()
    names = re.findall(r"^\s*([\w/]+\.cpp)", txt, re.M)
    return [d + "/" + n for n in names]

def listed(d):
    txt = open(REPO + "/" + d + "/CMakeLists.txt").read()
    return [REPO + "/" + d + "/" + n for n in re.findall(r"([\w/]+\.cpp)", txt)]

# Left out of the Base Modelica passes: what the installed MLIR or the pinned
# commit itself cannot build (see DESIGN.md).
LEFT_OUT = {"AllInterfaces.cpp", "Passes.cpp", "BufferizableOpInterfaceImpl.cpp", "Pantelides.cpp"}
def ir_sources():
    r = []
    for d in ["Modeling", "BaseModelica", "SUNDIALS", "IDA", "KINSOL", "Runtime"]:
        r += listed(f"lib/Dialect/{d}/IR")
    return r
def codegen_sources():
    d = "lib/Codegen/Lowering"
    r = []
    for root, ds, fs in sorted(os.walk(REPO + "/" + d)):
        if "CMakeLists.txt" in fs:
            r += listed(os.path.relpath(root, REPO))
    return r
def pass_sources():
    r = listed("lib/Dialect/BaseModelica/Analysis") + listed("lib/Dialect/BaseModelica/Transforms")
    return [s for s in r if os.path.basename(s) not in LEFT_OUT]

HARNESSES = {
    "pipeline": dict(src=["harness/pipeline.cpp"], libs=["passes", "modeling", "front", "ir"], tblgen=True, flags=["-include", V + "/compat/mlir.h"],
                     plain=["compat/symbol_table.cpp", "compat/preferred_alignment.cpp"],
                     link=["-lMLIR", "-lclangBasic", "-lLLVM"]),
    "filter": dict(src=["harness/filter.cpp"], libs=["lexer", "filter"], link=["-lclangBasic", "-lLLVM"]),
    "parser": dict(src=["harness/parser.cpp"], libs=["parser"], link=["-lclangBasic", "-lLLVM"]),
    "sets": dict(src=["harness/sets.cpp"], libs=["modeling"], link=["-lMLIR", "-lLLVM"]),
    "incidence": dict(src=["harness/incidence.cpp"], libs=["modeling"], link=["-lMLIR", "-lLLVM"]),
    "maps": dict(src=["harness/maps.cpp"], libs=["modeling"], link=["-lMLIR", "-lLLVM"]),
    "graphs": dict(src=["harness/graphs.cpp"], libs=["modeling"], link=["-lMLIR", "-lLLVM"]),
    "matching": dict(src=["harness/matching.cpp"], libs=["modeling"], link=["-lMLIR", "-lLLVM"]),
}
LIBS = {
    "lexer": lambda: listed("lib/Lexer"),
    "filter": lambda: listed("lib/VariableFilter"),
    "parser": lambda: listed("lib/Lexer") + listed("lib/AST") + listed("lib/AST/BaseModelica") + listed("lib/Parser/BaseModelica"),
    "modeling": modeling_sources,
    "passes": pass_sources,
    "front": lambda: LIBS["parser"]() + codegen_sources(),
    "ir": ir_sources,
}
# Executed by one task at a time, before or between the concurrent phases: not
# instrumented.  What concurrent passes share (DerivativesMap) is.
PLAIN_LIBS = {"front", "ir"}
def plain(lib, src):
    return lib in PLAIN_LIBS and os.path.basename(src) not in ("DerivativesMap.cpp", "Properties.cpp")

# Sources written for another version of LLVM than the installed one.
COMPAT = {
    "lib/VariableFilter/VariableFilter.cpp": "variable_filter.h",
}
SYMBOL_TABLE = {"AutomaticDifferentiation.cpp", "FunctionUnwrap.cpp", "IDA.cpp", "SCCSolvingWithKINSOL.cpp"}
def compat(src):
    rel = os.path.relpath(src, REPO)
    if rel in COMPAT:
        return ["-include", V + "/compat/" + COMPAT[rel]]
    if rel.startswith(("lib/Dialect/", "lib/Codegen/")):
        if os.path.basename(rel) in SYMBOL_TABLE:
            return ["-I" + V + "/compat", "-include", V + "/compat/symbol_table.h"]
        return ["-include", V + "/compat/mlir.h"]
    return []

def build(names, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        def submit(src, flags, tag):
            k = (src, tuple(flags), tag)
            if k not in jobs:
                jobs[k] = ex.submit(compile_one, src, flags, tag)
            return jobs[k]
        plan = {}
        for n in names:
            h = HARNESSES[n]
            if h.get("tblgen"):
                dialect_headers()
            todo = [(V + "/" + s, BASE + INSTR + h.get("flags", []), "h") for s in h["src"]]
            for l in h["libs"]:
                for s in LIBS[l]():
                    todo.append((s, BASE + ([] if plain(l, s) else INSTR) + compat(s), l))
            # Instrumented objects first: the linker keeps the first copy of an
            # inline function, and the simulator has to see its atomics.
            todo.sort(key=lambda t: "-fsanitize=thread" not in t[1])
            for s in ["sim/simrt.cpp", "sim/simpool.cpp", "sim/sim_main.cpp"] + h.get("plain", []):
                fl = [f if f != "-O1" else "-O2" for f in BASE]
                todo.append((V + "/" + s, fl, "p"))
            plan[n] = todo
        # The slowest to compile first.
        for t in sorted((t for p in plan.values() for t in p), key=lambda t: -os.path.getsize(t[0])):
            submit(*t)
        plan = {n: [submit(*t) for t in p] for n, p in plan.items()}
        res = {}
        for n, objs in plan.items():
            files = [o.result() for o in objs]
            exe = f"{OUT}/{n}"
            key = hashlib.sha1("".join(f + fhash_now(f) for f in files).encode()).hexdigest()
            kf = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
                rc, out = run([CXX, "-o", exe + ".tmp"] + files + LINK + HARNESSES[n]["link"] + ["-lpthread", "-ldl"])
                if rc != 0:
                    raise BuildError(f"link {n}:\n{out[-6000:]}")
                os.replace(exe + ".tmp", exe)
                open(kf, "w").write(key)
            res[n] = exe
    return res

def fhash_now(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()

if __name__ == "__main__":
    try:
        r = build(sys.argv[1:] or list(HARNESSES))
    except BuildError as e:
        print(e); sys.exit(3)
    print(r)
