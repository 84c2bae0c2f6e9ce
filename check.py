#!/usr/bin/env python3
"""Runs the solver-based check of one property:  check.py <ID> [--tier quick|thorough]

Builds the symbolic executor, lowers /repo's current sources to LLVM IR, links them with the
property's harnesses and the environment model, executes every harness symbolically, replays each
counterexample against a native sanitizer build of the same sources, and writes the evidence file.
Exit 0: held on everything explored; exit 1: a reproduced violation (VIOLATION line on stdout).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZSE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
NPROC = int(os.environ.get("ZSE_PROCS") or min(8, os.cpu_count() or 1))
T0 = time.time()

DEFS = ["-std=c++20", "-D_ZKEXPORT=1", "-DZKNO_REM=1", "-D_ZK_WITH_MMAP=1", "-DNDEBUG", "-U_FORTIFY_SOURCE",
        f"-I{REPO}/include", f"-I{REPO}/src", "-I/opt/vp/deps/libsquish", "-Wno-everything"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", f"{VERIF}/engine/rt/pre.h", "-c", "-emit-llvm"]
NATFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,integer-divide-by-zero,return,unreachable,null,vptr",
            "-fno-sanitize-recover=all", "-c"]


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        print("command failed:", " ".join(cmd))
        print(r.stdout[-4000:])
        sys.exit(2)
    return r


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_files(*roots, exts=(".hh", ".h", ".inl", ".hpp", ".tcc", ".inc")):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def sources():
    out = []
    for d, _, fs in os.walk(f"{REPO}/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".cpp")) and "Win32" not in f]
    return sorted(out)


def header_key():
    return sha(*[read(p) for p in tree_files(f"{REPO}/include", f"{REPO}/src")], *[os.path.relpath(p, REPO) for p in tree_files(f"{REPO}/include", f"{REPO}/src")])


class Compiler:
    """content-addressed compilation: an object is reused only if every input byte is unchanged"""

    def __init__(self):
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.hk = header_key()
        self.rtk = sha(*[read(p) for p in tree_files(f"{VERIF}/harness", f"{VERIF}/engine/rt")])
        os.makedirs(f"{BUILD}/obj", exist_ok=True)

    def one(self, src, flags, ext):
        out = f"{BUILD}/obj/{os.path.basename(src)}.{sha(read(src), src, self.hk, self.rtk, *flags)}{ext}"
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp"
            r = run([CXX, *flags, src, "-o", tmp])
            if r.returncode:
                raise RuntimeError(f"compiling {src} failed:\n{r.stdout[-3000:]}")
            os.replace(tmp, out)
        return out

    def many(self, jobs):
        return [self.pool.submit(self.one, *j) for j in jobs]


def parse_harness(path):
    txt = read(path).decode()
    meta = {"bound": [], "assume": [], "outside": []}
    opts = {}
    for m in re.finditer(r"^//@(\w+)[ \t]+(.*)$", txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == "entry":
            p = v.split()
            opts[p[0]] = p[1:]
        elif k in meta:
            meta[k].append(v)
    entries = re.findall(r"^HARNESS\((\w+)\)", txt, re.M)
    # entries generated by macros are declared with //@entry
    for e in opts:
        if e not in entries:
            entries.append(e)
    return entries, opts, meta


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay_args = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--replay":
            replay_args = (args.pop(0), os.path.abspath(args.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = f"{BUILD}/run/{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    hfile = f"{VERIF}/harness/{pid}.cc"
    entries, opts, meta = parse_harness(hfile)

    if replay_args:
        comp = Compiler()
        jobs = comp.many([(s, DEFS + NATFLAGS, ".san.o") for s in sources()] +
                         [(hfile, DEFS + NATFLAGS + ["-DZSE_NATIVE", f"-I{VERIF}/harness"], ".san.o"),
                          (f"{VERIF}/harness/native_rt.cc", DEFS + NATFLAGS, ".san.o")])
        exe = f"{work}/replay_asan"
        must([CXX, "-fsanitize=address,undefined", *[x.result() for x in jobs], "-o", exe, "-lsquish", "-lpthread"])
        r = subprocess.run([exe, *replay_args], env=dict(os.environ, ZSE_GUARD="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", TZ="UTC"))
        sys.exit(r.returncode)

    # --- build: executor, IR of the implementation, harness, environment model
    eng = subprocess.Popen(["make", "-s", "-j4", "-C", f"{VERIF}/engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    comp = Compiler()
    try:
        hjob = comp.many([(hfile, DEFS + IRFLAGS + [f"-I{VERIF}/harness"], ".bc")])
        rtf = [f for f in DEFS if not f.startswith("-I")] + IRFLAGS + ["-fno-builtin", "-DZSE_RT"]
        rjobs = comp.many([(f"{VERIF}/engine/rt/libstdcxx.cc", rtf, ".bc"),
                           (f"{VERIF}/engine/rt/libfs.cc", rtf + ["-fno-access-control"], ".bc"),
                           (f"{VERIF}/engine/rt/libc.cc", rtf, ".bc")])
        srcs = sorted(sources(), key=lambda p: -os.path.getsize(p))
        sjobs = comp.many([(s, DEFS + IRFLAGS, ".bc") for s in srcs])
        sbc = [j.result() for j in sjobs]
        hbc = hjob[0].result()
        rbc = [j.result() for j in rjobs]
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    impl = f"{work}/impl.bc"
    must([LINK, *sorted(sbc), "-o", impl])
    mod = f"{work}/{pid}.bc"
    must([LINK, impl, hbc, *rbc, "-o", mod])
    out, _ = eng.communicate()
    if eng.returncode:
        print(out)
        sys.exit(2)
    log(f"built: {len(sbc)} translation units lowered, harness {pid}")

    # --- symbolic execution
    budget = {"quick": 60.0, "thorough": 600.0}[tier]
    todo = []
    for e in entries:
        if only and not re.fullmatch(only, e):
            continue
        o = dict(x.split("=", 1) if "=" in x else (x, "") for x in opts.get(e, []))
        if o.pop("tier", "quick") == "thorough" and tier == "quick":
            continue
        t = float(o.pop("time", budget))
        tt = float(o.pop("thorough", max(t, budget) if tier == "thorough" else t))
        if tier == "thorough":
            t = tt
        o.pop("w", None)
        todo.append((e, t, o))
    todo.sort(key=lambda x: -x[1])

    def zse(e, t, o):
        res = f"{work}/{e}.json"
        cmd = [f"{BUILD}/zse", mod, f"--entry={e}", f"--out={res}", f"--cex-dir={work}/cex", f"--time={t}", f"--seed={seed}", "--mem=3500"]
        cmd += [f"--{k}={v}" if v != "" else f"--{k}" for k, v in o.items()]
        try:
            r = run(cmd, timeout=t * 1.2 + 60)
            tail = r.stdout[-1500:]
            rc = r.returncode
        except subprocess.TimeoutExpired as ex:
            tail, rc = "killed after hard timeout", -9
        try:
            j = json.load(open(res))
        except Exception:
            j = {"entry": e, "complete": False, "engine_failure": f"rc={rc} {tail}", "violations": [], "reached": [], "functions": [],
                 "paths_completed": 0, "paths_incomplete": 0, "paths_violating": 0, "paths_assumed_away": 0, "forks": 0, "instructions": 0,
                 "assertions_checked": 0, "assertions_by_rewriting": 0, "samples": [], "incomplete": {"engine-failure": 1},
                 "solver": {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "cache_hits": 0, "model_hits": 0, "time_s": 0, "max_s": 0}, "wall_s": 0}
        if tail.strip():
            j["stderr"] = tail
        return j

    with cf.ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(lambda x: zse(*x), todo))
    for j in sorted(results, key=lambda j: j["entry"]):
        log(f"{j['entry']}: paths={j['paths_completed']} incomplete={j['paths_incomplete']} viol={len(j['violations'])} "
            f"asserts={j['assertions_checked']} queries={j['solver']['queries']} solver={j['solver']['time_s']:.1f}s wall={j['wall_s']:.1f}s "
            f"{'complete' if j['complete'] else 'INCOMPLETE ' + json.dumps(j['incomplete'])}"
            f"{'' if 'end' in j['reached'] else ' VACUOUS'}{' ' + j.get('engine_failure', '')} {j.get('stderr', '') if 'ZSE_VERBOSE' in os.environ else ''}")

    # --- native builds: the same IR for validating sample paths; a sanitizer build for counterexamples
    def native_fast():
        f = comp.many([(hfile, DEFS + ["-O1", "-DZSE_NATIVE", f"-I{VERIF}/harness", "-c"], ".o"),
                       (f"{VERIF}/harness/native_rt.cc", DEFS + ["-O1", "-c"], ".o")])
        exe = f"{work}/replay_fast"
        must([CXX, "-O0", "-Wno-everything", impl, *[x.result() for x in f], "-o", exe, "-lsquish", "-lpthread"])
        return exe

    def native_asan():
        jobs = comp.many([(s, DEFS + NATFLAGS, ".san.o") for s in srcs] +
                         [(hfile, DEFS + NATFLAGS + ["-DZSE_NATIVE", f"-I{VERIF}/harness"], ".san.o"),
                          (f"{VERIF}/harness/native_rt.cc", DEFS + NATFLAGS, ".san.o")])
        exe = f"{work}/replay_asan"
        must([CXX, "-fsanitize=address,undefined", *[x.result() for x in jobs], "-o", exe, "-lsquish", "-lpthread"])
        return exe

    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190",
               UBSAN_OPTIONS="print_stacktrace=1", TZ="UTC")

    def replay(exe, entry, cex, timeout=15, **extra):
        try:
            r = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$@\"", "x", exe, entry, cex], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, env=dict(env, **extra), cwd=work)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            return "timeout", ""

    viols = [(j["entry"], v) for j in results for v in j["violations"]]
    validated, mismatches, replayed_samples = 0, [], []
    sample_files = []
    for j in results:
        for i in range(len(j["samples"])):
            p = f"{work}/cex/{j['entry']}.sample{i}"
            if os.path.exists(p):
                sample_files.append((j["entry"], p))
    if sample_files:
        exe = native_fast()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda s: replay(exe, *s), sample_files))
        for (e, p), (rc, o) in zip(sample_files, rs):
            if rc == 0:
                validated += 1
            else:
                mismatches.append(f"{e}: {os.path.basename(p)} rc={rc} {o.strip()[-300:]}")
        log(f"validated {validated}/{len(sample_files)} sampled paths natively")
        for m in mismatches:
            log("MISMATCH", m)

    known = []
    kf = f"{VERIF}/known_findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k.get("status", "known") == "known"]
    confirmed, unconfirmed, knowns = [], [], []
    if viols:
        exe = native_asan()
        for e, v in viols:
            rc, o = replay(exe, e, v["cex"])
            if rc == 0 and v["kind"] == "memory":  # again, with large guard areas around every allocation
                rc, o = replay(exe, e, v["cex"], ZSE_GUARD="1")
            ok = rc not in (0, 75, 76, 77, 2)
            if rc == "timeout" and v["kind"] not in ("non-termination", "memory-exhaustion"):
                ok = False
            rec = dict(entry=e, kind=v["kind"], msg=v["msg"], loc=v["loc"], cex=v["cex"], stack=v["stack"], replay_rc=rc, replay_out=o[-3000:])
            if not ok:
                unconfirmed.append(rec)
                continue
            hit = next((k for k in known if re.fullmatch(k["entry"], e) and re.search(k["match"], f"{v['kind']}|{v['msg']}|{v['loc']}")), None)
            if hit:
                knowns.append((hit, rec))
            else:
                confirmed.append(rec)
    for rec in unconfirmed:
        log(f"not reproduced natively (not reported): {rec['entry']} {rec['kind']}: {rec['msg']} at {rec['loc']} rc={rec['replay_rc']} {rec['replay_out'].strip()[-200:]}")
    for k in {json.dumps(k) for k, _ in knowns}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")

    # --- replay files for the report
    rdir = f"{VERIF}/evidence/replay"
    lines = []
    for i, rec in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        p = f"{rdir}/{rec['entry']}.{i}.cex"
        with open(p, "w") as f:
            f.write(f"# property {pid}, harness {rec['entry']} ({hfile})\n# {rec['kind']}: {rec['msg']}\n# at {rec['loc']}\n")
            f.write("".join("# " + l + "\n" for l in rec["stack"].splitlines()))
            f.write("".join("# native: " + l + "\n" for l in rec["replay_out"].splitlines()[-12:]))
            f.write(f"# replay: {VERIF}/replay.sh {pid} {rec['entry']} {p}\n")
            f.write(open(rec["cex"]).read())
        print(f"violation: {rec['entry']}: {rec['kind']}: {rec['msg']} at {rec['loc']}")
        lines.append(f"VIOLATION property={pid} replay={p}")

    tot = lambda k: sum(j[k] for j in results)
    sol = lambda k: sum(j["solver"][k] for j in results)
    fns = sorted({f for j in results for f in j["functions"]})
    inc = {}
    for j in results:
        for k, n in j["incomplete"].items():
            inc.setdefault(k, {})[j["entry"]] = n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths_completed") + tot("paths_incomplete") + tot("paths_violating") + tot("paths_assumed_away"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": j["entry"], "input": s} for j in results for s in j["samples"][:1]][:12],
            "explanation": "states = symbolic paths, each standing for all inputs that satisfy its path condition; transitions = LLVM IR instructions executed symbolically",
            "exhaustive": all(j["complete"] for j in results),
            "harnesses": {j["entry"]: {"paths": j["paths_completed"], "assumed_away": j["paths_assumed_away"], "incomplete_paths": j["paths_incomplete"],
                                       "complete_within_bounds": j["complete"], "forks": j["forks"], "assertions": j["assertions_checked"],
                                       "assertions_decided_by_rewriting": j.get("assertions_by_rewriting", 0),
                                       "queries": j["solver"]["queries"], "solver_s": round(j["solver"]["time_s"], 3), "wall_s": round(j["wall_s"], 3),
                                       "witness_reached": j["reached"]} for j in results},
            "solver": {"name": "z3 (libz3)", "queries": sol("queries"), "sat": sol("sat"), "unsat": sol("unsat"), "unknown": sol("unknown"),
                       "answered_from_cache": sol("cache_hits") + sol("model_hits"), "time_s": round(sol("time_s"), 3)},
            "assertions_checked": tot("assertions_checked"),
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "bounds": meta["bound"], "outside_bounds": meta["outside"],
            "not_explored": inc,
            "vacuous_harnesses": [j["entry"] for j in results if "end" not in j["reached"]],
            "sample_mismatches": mismatches[:20],
            "unreproduced_counterexamples": [f"{r['entry']} {r['kind']} {r['msg']} {r['loc']}" for r in unconfirmed],
            "known_findings_hit": [k["what"] for k, _ in knowns],
        },
        "assumptions": meta["assume"] + ["environment model /verif/engine/rt (C and C++ library)", "allocation below 2^46 bytes succeeds", "two's complement, x86-64, little endian; clang -O1 lowering"],
        "wall_s": round(time.time() - T0, 2), "violations": len(confirmed),
    }
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if "ZSE_KEEP" not in os.environ:
        for f in os.listdir(work):
            if f.endswith(".bc") or f.startswith("replay_"):
                os.unlink(f"{work}/{f}")
    for l in lines:
        print(l)
    log(f"{pid} {tier}: {'VIOLATED' if confirmed else 'held'}; {ev['coverage']['states']} paths, {ev['coverage']['solver']['queries']} queries")
    sys.stdout.flush()
    sys.exit(1 if confirmed else 0)


if __name__ == "__main__":
    main()
