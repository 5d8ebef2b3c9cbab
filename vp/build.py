"""Compilation of /repo's current sources: LLVM IR for the symbolic executor,
native objects for replaying counterexamples.  Results are cached under
/verif/build, keyed by the contents of everything a translation unit includes."""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(ROOT, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = max(2, min(8, os.cpu_count() or 2))
GCC_DIR = "/usr/lib/gcc/x86_64-linux-gnu/11"
CLANG = "clang++-18"
IR_FLAGS = ["--gcc-install-dir=" + GCC_DIR, "-std=c++11", "-DNDEBUG", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
            "-gline-tables-only", "-emit-llvm", "-c", "-w", "-fno-pic", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-I" + ROOT + "/runtime/include", "-I" + ROOT + "/runtime/threads", "-I" + SRC]
NATIVE = {
    # plain build: what the project ships (optimised, NDEBUG), plus sanitizers
    "san": ["g++-11", "-std=c++11", "-DNDEBUG", "-O1", "-g", "-w", "-pthread", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=leak", "-I" + SRC],
    "rel": ["g++-11", "-std=c++11", "-DNDEBUG", "-O2", "-g1", "-w", "-pthread", "-I" + SRC],
    "thr": ["g++-11", "-std=c++11", "-DNDEBUG", "-O1", "-g", "-w", "-pthread", "-I" + ROOT + "/runtime/threads", "-I" + SRC],
    "tsan": ["g++-11", "-std=c++11", "-DNDEBUG", "-O1", "-g", "-w", "-pthread", "-fsanitize=thread", "-I" + ROOT + "/runtime/threads", "-I" + SRC],
}
VARIANT = {"int": ["-DNO_FLEXIBILITY"], "flex": []}


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()[:24]


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = sha(f.read())
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def _deps_key(deps):
    return sha("\n".join(d + " " + fhash(d) for d in deps).encode())


def keep_globals(path):
    """The optimiser may turn a static variable into a local one, which is right for one thread only: mark all as used, so that data races on them remain visible."""
    with open(path) as f:
        text = f.read()
    names = re.findall(r"^(@[^ ]+) = internal (?:unnamed_addr |local_unnamed_addr )*global ", text, re.M)
    if names and "@llvm.compiler.used" not in text:
        text += "\n@llvm.compiler.used = appending global [%d x ptr] [%s], section \"llvm.metadata\"\n" % (len(names), ", ".join("ptr " + n for n in names))
        with open(path, "w") as f:
            f.write(text)


def compile_one(src, cmd, ext):
    """cmd: full command without -o/-MD; returns path of cached output"""
    os.makedirs(CACHE, exist_ok=True)
    base = os.path.join(CACHE, re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(src)) + "." + sha((" ".join(cmd) + "\0" + src).encode()))
    idx = base + ".deps"
    if os.path.exists(idx):
        with open(idx) as f:
            deps = f.read().split("\n")
        out = base + "." + _deps_key(deps) + ext
        if os.path.exists(out):
            os.utime(out)
            return out
    tmp = base + ".%d.tmp" % os.getpid()
    keep = ext == ".bc" and src.startswith(SRC)
    front = [x for x in cmd if x != "-c"] + ["-S", "-Xclang", "-disable-llvm-passes"] if keep else cmd
    r = subprocess.run(front + [src, "-o", tmp + (".ll" if keep else ext), "-MD", "-MF", tmp + ".d"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0 and keep:
        keep_globals(tmp + ".ll")
        r = subprocess.run([CLANG, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-x", "ir", tmp + ".ll", "-emit-llvm", "-c", "-o", tmp + ext], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(tmp + ".ll")
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
    with open(tmp + ".d") as f:
        t = f.read().replace("\\\n", " ")
    deps = sorted(set(x for x in t.split(":", 1)[1].split() if not x.startswith("/usr/")))
    os.unlink(tmp + ".d")
    out = base + "." + _deps_key(deps) + ext
    # drop older results of the same unit
    for f in os.listdir(CACHE):
        p = os.path.join(CACHE, f)
        if p.startswith(base + ".") and f.endswith(ext) and p != tmp + ext and ".tmp" not in f:
            os.unlink(p)
    os.rename(tmp + ext, out)
    with open(idx + ".%d" % os.getpid(), "w") as f:
        f.write("\n".join(deps))
    os.rename(idx + ".%d" % os.getpid(), idx)
    return out


def repo_units():
    us = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(".cpp"))
    # slowest first
    us.sort(key=lambda p: 0 if "fourier" in p else 1 if ("method_" in p or "input_validity" in p) else 2 if "algorithm" in p else 3)
    return us


def only(units, pats):
    return units if pats is None else [u for u in units if any(re.match(p, os.path.basename(u)) for p in pats)]


def par(fn, items):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def ensure_engine():
    r = subprocess.run(["bash", ROOT + "/engine/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("engine build failed: " + r.stdout.decode(errors="replace")[-2000:])
    return os.path.join(BUILD, "vpse")


def ir(variants, harness_files, modules=None):
    """variants: set of variant names; returns {variant: linked bc}, {harness: bc}"""
    jobs = []
    for v in variants:
        for u in only(repo_units(), (modules or {}).get(v)):
            ex = ["-Dmain=panda_main"] if os.path.basename(u) == "main.cpp" else []
            jobs.append((v, u, [CLANG] + IR_FLAGS + VARIANT[v] + ex))
    rt = ROOT + "/runtime/runtime.cpp"
    jobs.append(("rt", rt, [CLANG] + IR_FLAGS + ["-fno-builtin", "-I" + ROOT + "/harness"]))
    for h, v in harness_files:
        jobs.append(("h:" + h + ":" + v, h, [CLANG] + IR_FLAGS + VARIANT[v] + ["-I" + ROOT + "/harness"]))
    outs = par(lambda j: compile_one(j[1], j[2], ".bc"), jobs)
    per = {}
    for j, o in zip(jobs, outs):
        per.setdefault(j[0], []).append(o)
    linked = {}
    for v in variants:
        files = per.get(v, []) + per["rt"]
        key = sha(" ".join(files).encode())
        out = os.path.join(CACHE, "all-%s-%s.bc" % (v, key))
        if not os.path.exists(out):
            for f in os.listdir(CACHE):
                if f.startswith("all-%s-" % v) and f.endswith(".bc") and os.path.getmtime(os.path.join(CACHE, f)) < os.path.getmtime(files[0]) - 7200:
                    os.unlink(os.path.join(CACHE, f))
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run(["llvm-link-18", "-o", tmp] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("llvm-link failed: " + r.stdout.decode(errors="replace")[-2000:])
            os.rename(tmp, out)
        linked[v] = out
    hs = {}
    for j, o in zip(jobs, outs):
        if j[0].startswith("h:"):
            hs[(j[1], j[0].rsplit(":", 1)[1])] = o
    return linked, hs


def native(harness, variant, mode, modules=None):
    """builds the native replay program for one harness file"""
    cmd = NATIVE[mode] + VARIANT[variant]
    jobs = []
    for u in only(repo_units(), (modules or {}).get(variant)):
        jobs.append((u, cmd + (["-Dmain=panda_main"] if os.path.basename(u) == "main.cpp" else []) + ["-c"]))
    jobs.append((harness, cmd + ["-I" + ROOT + "/harness", "-c"]))
    jobs.append((ROOT + "/runtime/vp_native.cpp", cmd + ["-I" + ROOT + "/harness", "-c"]))
    if mode in ("thr", "tsan"):
        jobs.append((ROOT + "/runtime/vp_native_threads.cpp", [x for x in cmd if x != "-fsanitize=thread"] + ["-I" + ROOT + "/harness", "-c"]))
    objs = par(lambda j: compile_one(j[0], j[1], ".o"), jobs)
    key = sha(" ".join(objs).encode())
    out = os.path.join(CACHE, "replay-%s" % key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([cmd[0]] + [f for f in cmd[1:] if f.startswith("-fsan") or f == "-pthread"] + objs + ["-rdynamic", "-ldl", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("linking the replay program failed: " + r.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, out)
    return out
