"""Runs the symbolic executor over the harness configurations of one property,
replays what it reports against the compiled code, writes the evidence file."""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from . import build
from .build import ROOT, BUILD

KNOWN = os.path.join(ROOT, "known_findings.json")


class Cfg:
    def __init__(self, entry, harness, name=None, params=None, variant="int", tier="both", time=40, time_thorough=None, parts=1, flags=(), race=False,
                 bounds="", known=None, mode="san", expect=(), replay=True, paths=None, preempt=None, explore=False, spurious=0, viol=4, instr=None, table=None, rss=3500):
        self.entry, self.harness, self.variant, self.tier = entry, os.path.join(ROOT, "harness", harness), variant, tier
        self.params = dict(params or {})
        self.name = name or (entry + "".join(",%s=%s" % kv for kv in sorted(self.params.items())))
        self.time, self.time_thorough = time, time_thorough or max(600, time * 6)
        self.parts, self.flags, self.race, self.bounds, self.known, self.mode, self.expect = parts, list(flags), race, bounds, known, mode, list(expect)
        self.explore, self.spurious = explore, spurious
        self.replay, self.paths, self.preempt, self.viol, self.instr, self.table, self.rss = replay, paths, preempt, viol, instr, table, rss


def engine_cmd(vpse, cfg, bc, hbc, out, part, tier):
    c = [vpse, "--entry=" + cfg.entry, "--out=" + out, "--src=" + build.SRC, "--time=%g" % (cfg.time if tier == "quick" else cfg.time_thorough), "--viol=%d" % cfg.viol, "--rss=%d" % cfg.rss]
    if cfg.parts > 1:
        c.append("--part=%d/%d" % (part, cfg.parts))
    if cfg.explore:
        c += ["--explore", "--spurious=%d" % cfg.spurious]
    if cfg.race:
        c.append("--race")
    if cfg.preempt is not None:
        c.append("--preempt=%d" % cfg.preempt)
    if cfg.paths:
        c.append("--paths=%d" % cfg.paths)
    if cfg.instr:
        c.append("--instr=%d" % cfg.instr)
    if cfg.table is not None:
        c.append("--table=%d" % cfg.table)
    c += ["--param=%s=%s" % kv for kv in sorted(cfg.params.items())]
    return c + cfg.flags + [hbc, bc]


def run_engine(job):
    cfg, cmd, out, limit = job
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return {"error": "engine exceeded its hard time limit", "cfg": cfg.name}
    try:
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
    except Exception as e:
        return {"error": "engine failed (exit %d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-600:]), "cfg": cfg.name}
    return res


def write_inputs(path, cfg, inputs, sched=()):
    with open(path, "w") as f:
        for k, v in sorted(cfg.params.items()):
            f.write("param %s %s\n" % (k, v))
        if cfg.explore:
            f.write("param vp_explore 1\nparam vp_preempt %d\nparam vp_spurious %d\n" % (-1 if cfg.preempt is None else cfg.preempt, cfg.spurious))
        for n, v in inputs:
            f.write("in %s %s\n" % (n, v))
        for s in sched:
            f.write("sched %d\n" % s)


ASAN = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=0:print_stacktrace=1",
            TSAN_OPTIONS="exitcode=66:halt_on_error=1")


def native_run(prog, entry, inputs_file, timeout=20):
    d = tempfile.mkdtemp(prefix="vpreplay.")
    try:
        env = dict(os.environ, **ASAN)
        p = subprocess.Popen([prog, entry, inputs_file, d + "/s"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            return "timeout", o, e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(kind, rc):
    if rc == "timeout":
        return kind in ("hang", "deadlock", "assert", "terminate")
    if rc in (0, 90, 91, 92, 97, 98, 99):
        return False
    if kind in ("assert",):
        return rc == 77 or rc == 66 or (isinstance(rc, int) and rc < 0)
    if kind == "deadlock":
        return rc == 78 or rc == "timeout"
    return True


def replay_violation(prop, n, cfg, v, modules):
    """returns (confirmed, path, text)"""
    d = os.path.join(BUILD, "replay", prop, "%s-%d" % (re.sub(r"[^A-Za-z0-9_]+", "_", cfg.name), n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inp = os.path.join(d, "inputs.txt")
    write_inputs(inp, cfg, v["inputs"], v["sched"])
    with open(os.path.join(d, "violation.json"), "w") as f:
        json.dump(dict(property=prop, config=cfg.name, entry=cfg.entry, params=cfg.params, violation=v, bounds=cfg.bounds), f, indent=1)
    mode = cfg.mode
    confirmed, text = None, ""
    try:
        if v["kind"] == "data-race":
            # the compiled code under ThreadSanitizer, following the recorded schedule
            prog = build.native(cfg.harness, cfg.variant, "tsan", modules)
            rc, o, e = native_run(prog, cfg.entry, inp)
            confirmed = b"WARNING: ThreadSanitizer: data race" in e
            text = "native exit %s\n%s\n%s" % (rc, o.decode(errors="replace")[-2000:], e.decode(errors="replace")[-6000:])
            shutil.copy(prog, os.path.join(d, "replay"))
        else:
            # a wrong result shows in the release build, which exists already; the sanitizer build decides the rest
            modes = ["rel", "san"] if mode == "san" and v["kind"] in ("assert", "hang", "terminate", "division") else [mode]
            for m in modes:
                prog = build.native(cfg.harness, cfg.variant, m, modules)
                rc, o, e = native_run(prog, cfg.entry, inp)
                confirmed = confirm(v["kind"], rc)
                text += "%s build: native exit %s\n%s\n%s\n" % (m, rc, o.decode(errors="replace")[-2000:], e.decode(errors="replace")[-4000:])
                if confirmed:
                    break
            shutil.copy(prog, os.path.join(d, "replay"))
            with open(os.path.join(d, "run.sh"), "w") as f:
                f.write("#!/bin/bash\n# replays the counterexample against the compiled code (exit status != 0: reproduced)\ncd \"$(dirname \"$0\")\" && s=$(mktemp -d) && ASAN_OPTIONS=detect_leaks=0 ./replay %s $PWD/inputs.txt $s/x; r=$?; rm -r \"$s\"; exit $r\n" % cfg.entry)
    except build.BuildError as e:
        text = "replay program could not be built: %s" % e
        confirmed = None
    with open(os.path.join(d, "output.txt"), "w") as f:
        f.write(text)
    return confirmed, d, text


def check(prop, spec, tier, seed, verbose=False, only=None):
    t0 = time.time()
    level, cfgs, modules = spec.get("level", "model_checking"), spec["configs"], spec.get("modules")
    cfgs = [c for c in cfgs if (c.tier in ("both", tier)) and (only is None or re.search(only, c.name))]
    vpse = build.ensure_engine()
    linked, hbc = build.ir(sorted(set(c.variant for c in cfgs)), sorted(set((c.harness, c.variant) for c in cfgs)), modules)
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="vp.", dir=BUILD)
    jobs = []
    for c in cfgs:
        for p in range(c.parts):
            out = os.path.join(tmp, "%d.json" % len(jobs))
            cmd = engine_cmd(vpse, c, linked[c.variant], hbc[(c.harness, c.variant)], out, p, tier)
            jobs.append((c, cmd, out, (c.time if tier == "quick" else c.time_thorough) * 1.5 + 90))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][0].time)
    results = [None] * len(jobs)
    # the native program for validating sampled paths is built meanwhile
    natives = {}

    def build_natives():
        for h, v, m in sorted(set((c.harness, c.variant, "thr" if c.mode == "thr" else "rel") for c in cfgs)):
            try:
                natives[(h, v, m)] = build.native(h, v, m, modules)
            except build.BuildError as e:
                natives[(h, v, m)] = None
                print("note: native build failed: %s" % str(e)[-500:], file=sys.stderr)
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        futs = {ex.submit(run_engine, jobs[i]): i for i in order}
        nt = threading.Thread(target=build_natives)
        nt.start()
        for f in concurrent.futures.as_completed(futs):
            results[futs[f]] = f.result()
        nt.join()
    te = time.time()
    shutil.rmtree(tmp, ignore_errors=True)

    try:
        with open(KNOWN) as f:
            known = {k["id"]: k for k in json.load(f)["findings"]}
    except FileNotFoundError:
        known = {}
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], instructions=0, assertions_checked=0, assertion_queries=0, schedule_choices=0, solver_queries=0, solver_sat=0, solver_unsat=0,
               solver_unknown=0, table_decisions=0, solver_s=0.0, max_query_s=0.0, functions_encoded=[], configs=[], incomplete={}, unconfirmed=[], native_disagreements=[], not_reached=[])
    functions, errors, viols = set(), [], []
    reached = {}
    exhaustive = True
    for (c, cmd, out, lim), r in zip(jobs, results):
        if r is None or "error" in r:
            errors.append("%s: %s" % (c.name, (r or {}).get("error")))
            exhaustive = False
            continue
        cov["states"] += r["paths"]
        cov["transitions"] += r["forks"] + r["schedule_choices"] + r["paths"]
        for a, b in (("instructions", "instructions"), ("assertions_checked", "asserts"), ("assertion_queries", "assert_queries"), ("schedule_choices", "schedule_choices"), ("solver_queries", "queries"), ("solver_sat", "sat"),
                     ("solver_unsat", "unsat"), ("solver_unknown", "unknown"), ("table_decisions", "table_decisions"), ("solver_s", "solver_s")):
            cov[a] += r[b]
        cov["max_query_s"] = max(cov["max_query_s"], r["max_query_s"])
        functions.update(r["functions"])
        rc = reached.setdefault(c.name, {})
        for k, n in r["reached"].items():
            rc[k] = rc.get(k, 0) + n
        cov["configs"].append(dict(name=c.name, entry=c.entry, params=c.params, bounds=c.bounds, paths=r["paths"], asserts=r["asserts"], queries=r["queries"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 2), complete=not r["incomplete"], incomplete=r["incomplete"]))
        if r["incomplete"]:
            exhaustive = False
            for k, n in r["incomplete"].items():
                cov["incomplete"].setdefault(c.name, {})
                cov["incomplete"][c.name][k] = cov["incomplete"][c.name].get(k, 0) + n
        for v in r["violations"]:
            viols.append((c, v))
        for s in r["samples"][:2]:
            if len(cov["samples"]) < 24:
                cov["samples"].append(dict(config=c.name, **s))
    for c in cfgs:
        need = [e for e in c.expect if not reached.get(c.name, {}).get(e)]
        if need or not any(k.startswith("assert") for k in reached.get(c.name, {})):
            cov["not_reached"].append("%s: %s" % (c.name, need or "no assertion was reached"))
    # validate sampled paths: the same inputs through the compiled code must agree
    vinp = tempfile.mkdtemp(prefix="vpval.")
    vjobs = []
    for (c, cmd, out, lim), r in zip(jobs, results):
        if r and "samples" in r and natives.get((c.harness, c.variant, "thr" if c.mode == "thr" else "rel")) and c.known is None and c.replay:
            ss = r["samples"]
            take = ss if len(ss) <= 4 else [ss[0], ss[len(ss) // 2], ss[-2], ss[-1]]
            for s in take:
                vjobs.append((c, s))
    vjobs = vjobs[:160]

    def validate(k):
        c, s = vjobs[k]
        f = os.path.join(vinp, "%d.txt" % k)
        write_inputs(f, c, s["inputs"], s.get("sched", ()))
        rc, o, e = native_run(natives[(c.harness, c.variant, "thr" if c.mode == "thr" else "rel")], c.entry, f)
        notes = [l[8:].rsplit(" ", 1) for l in e.decode(errors="replace").split("\n") if l.startswith("VP-NOTE ")]
        ok = rc == 0 and [list(x) for x in s["notes"]] == notes
        return ok, rc, notes, e
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        for k, (ok, rc, notes, e) in enumerate(ex.map(validate, range(len(vjobs)))):
            if ok:
                cov["traces_validated_against_impl"] += 1
            else:
                c, s = vjobs[k]
                cov["native_disagreements"].append(dict(config=c.name, inputs=s["inputs"][:40], engine_notes=s["notes"], native_notes=notes, native_exit=str(rc), stderr=e.decode(errors="replace")[-300:]))
    shutil.rmtree(vinp, ignore_errors=True)

    # violations: replay, compare with the known findings
    nviol = 0
    done = set()
    lines, known_seen = [], {}
    viols.sort(key=lambda cv: (cv[1]["kind"] != "assert", len(cv[1]["inputs"])))
    tried = 0
    for c, v in viols:
        key = (c.name, v["kind"], v["msg"], v["loc"])
        if key in done:
            continue
        done.add(key)
        if c.known and c.known in known and v["kind"] == known[c.known]["kind"] and re.search(known[c.known]["match"], v["msg"]):
            known_seen.setdefault(c.known, v)
            continue
        if nviol >= 3 or tried >= 8:
            continue
        if nviol and v["kind"] not in ("assert", "hang", "terminate", "division"):
            continue
        tried += 1
        ok, d, text = replay_violation(prop, tried, c, v, modules)
        if verbose:
            print("--- %s %s: %s at %s\n    inputs %s\n    confirmed=%s %s" % (c.name, v["kind"], v["msg"], v["loc"], v["inputs"][:30], ok, text[-1500:]), file=sys.stderr)
        if ok or (ok is None):
            nviol += 1
            lines.append("VIOLATION property=%s replay=%s" % (prop, d))
            print("%s: %s (%s) %s inputs: %s" % (c.name, v["msg"], v["kind"], v["loc"], " ".join("%s=%s" % tuple(i) for i in v["inputs"][:24])))
        else:
            cov["unconfirmed"].append(dict(config=c.name, kind=v["kind"], msg=v["msg"], loc=v["loc"], inputs=v["inputs"][:40], native=text[-600:]))
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for l in lines:
        print(l)
    cov["functions_encoded"] = sorted(functions)
    cov["exhaustive"] = exhaustive and not errors
    cov["known_findings_seen"] = sorted(known_seen)
    if errors:
        cov["errors"] = errors
    cov["bounds"] = spec.get("bounds", "")
    cov["build_s"] = round(tb - t0, 1)
    cov["engine_s"] = round(te - tb, 1)
    cov["solver_s"] = round(cov["solver_s"], 2)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=spec.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d configs, %d paths, %d assertions, %d solver queries (%.1f s), %d traces replayed natively, %s%s, %.1f s" % (
        prop, tier, len(cfgs), cov["states"], cov["assertions_checked"], cov["solver_queries"], cov["solver_s"], cov["traces_validated_against_impl"],
        "complete within bounds" if cov["exhaustive"] else "INCOMPLETE", " (%d disagreements)" % len(cov["native_disagreements"]) if cov["native_disagreements"] else "", time.time() - t0))
    if verbose:
        for c in cov["configs"]:
            print("   %-48s paths %6d asserts %7d queries %6d solver %6.1fs wall %6.1fs %s" % (c["name"][:48], c["paths"], c["asserts"], c["queries"], c["solver_s"], c["wall_s"], c["incomplete"] or ""), file=sys.stderr)
        for k in ("not_reached", "errors", "unconfirmed", "native_disagreements"):
            for x in cov.get(k, []):
                print("   %s: %s" % (k, x), file=sys.stderr)
    if nviol:
        return 1
    if errors and len(errors) == len(jobs):
        return 2
    return 0


COMMON = [
    "clang 18 at -O1 with NDEBUG lowers the sources the way the shipped g++ build behaves (no reliance on undefined behaviour)",
    "the standard library's iostreams, threads and file system are replaced by models in /verif/runtime (containers, strings and algorithms are the real libstdc++ code); MPI code is not compiled",
    "memory allocation does not fail; heap memory is modelled as zero-initialised objects at distinct addresses",
]
