#!/usr/bin/env python3
"""Driver of the solver-based checks: check.py <PROPERTY> [...] | setup | all

Rebuilds the harnesses against /repo's working tree, lowers them to LLVM IR, executes every entry of
the property symbolically (symex), replays what the solver found against native builds of the same
tree, and writes evidence/<PROPERTY>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 no verdict."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SYMEX = os.path.join(B, "symex/release/symex")
UPDATE = "--update-expect" in sys.argv
KEEP = "--keep" in sys.argv
ONLY = [a[7:] for a in sys.argv if a.startswith("--only=")]
CORES = os.cpu_count() or 4
START = time.time()


class Fail(Exception):
    pass


def sh(cmd, cwd=None, timeout=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    t = p.stdout.decode("utf-8", "replace")
    if p.returncode:
        raise Fail("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, t[-6000:]))
    return t


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = []
        if os.path.isfile(p):
            fs = [p]
        for d, ds, ff in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "benches"))
            fs += [os.path.join(d, f) for f in sorted(ff)]
        for f in fs:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


SRC = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), os.path.join(V, "harness/src"), os.path.join(V, "harness/Cargo.toml"), os.path.join(V, "harness/Cargo.lock")]


def stale(td, key):
    """Content decides, not mtimes: forget cargo's fingerprints of the path crates when the tree differs."""
    st = os.path.join(td, "tree.sha256")
    if os.path.exists(st) and open(st).read() == key:
        return False
    for d, ds, _ in os.walk(td):
        for x in list(ds):
            if os.path.basename(d) == ".fingerprint" and re.match(r"(fuel-tx|harness)-", x):
                shutil.rmtree(os.path.join(d, x))
        if os.path.basename(d) in ("deps", "build"):
            ds[:] = []
    return True


def fresh(td, key):
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, "tree.sha256"), "w") as f:
        f.write(key)


def cargo(args, td, cwd):
    e = dict(ENV, CARGO_TARGET_DIR=td)
    sh(["cargo"] + args, cwd=cwd, env=e, timeout=800)


def build_symex():
    cargo(["build", "--release", "--offline", "--quiet"], os.path.join(B, "symex"), os.path.join(V, "symex"))


def build_ir(key):
    td = os.path.join(B, "ir")
    d = os.path.join(td, "release/deps")
    bcs = lambda: [os.path.join(d, f) for f in (os.listdir(d) if os.path.isdir(d) else []) if re.match(r"harness.*lto\.input\.bc$", f)]
    if stale(td, key) or not bcs():
        for f in os.listdir(d) if os.path.isdir(d) else []:
            if f.startswith("harness"):
                os.unlink(os.path.join(d, f))
        cargo(["rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--quiet", "--", "--emit=llvm-ir", "-C", "save-temps"], td, os.path.join(V, "harness"))
        fresh(td, key)
    f = bcs()
    if len(f) != 1:
        raise Fail("expected one linked bitcode file, found %r" % f)
    return f[0]


def build_native(key, prof):
    td = os.path.join(B, "nat")
    if prof != "dev":
        td = os.path.join(B, "nat-" + prof)
    b = os.path.join(td, "debug" if prof == "dev" else prof, "replay")
    if stale(td, key) or not os.path.exists(b):
        cargo(["build", "--bin", "replay", "--features", "native", "--offline", "--quiet"] + (["--profile", prof] if prof != "dev" else []), td, os.path.join(V, "harness"))
        fresh(td, key)
    return b


def build_all():
    os.makedirs(B, exist_ok=True)
    key = tree_hash(SRC)
    with cf.ThreadPoolExecutor(4) as ex:
        s = ex.submit(build_symex)
        i = ex.submit(build_ir, key)
        n = [ex.submit(build_native, key, p) for p in ("dev", "replay")]
        s.result()
        return i.result(), [x.result() for x in n]


def bindir():
    r = sh(["rustc", "--print", "sysroot"]).strip().splitlines()[-1]
    return os.path.join(r, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def replay(binp, entry, inp, param):
    try:
        p = subprocess.run([binp, entry, "-" if len(inp) > 50000 else inp, str(param)], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
    except subprocess.TimeoutExpired:
        return "hang", "", [], []
    t = p.stdout.decode("utf-8", "replace").splitlines()
    end = [x for x in t if x.startswith("END ")]
    obs = [x[4:].rsplit(" ", 1) for x in t if x.startswith("OBS ")]
    reach = [x[6:] for x in t if x.startswith("REACH ")]
    return p.returncode, (end[-1][4:] if end else ""), obs, reach


BAD = (101, 102, 103)


def reproduced(rc):
    return rc in BAD or rc == "hang" or (isinstance(rc, int) and (rc < 0 or rc in (132, 134, 139)))


def entries_of(prop, names):
    p = prop.lower() + "_"
    e = [n for n in names if n.startswith(p)]
    if TIER == "quick":
        e = [n for n in e if not n.endswith("_deep")]
    if ONLY:
        e = [n for n in e if any(o in n for o in ONLY)]
    return e


def load_known():
    out, f = [], os.path.join(V, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) entry=(\S+) match=(.*?) :: (.*)$", l.strip())
        if m:
            out.append(dict(property=m[1], entry=m[2], rx=re.compile(m[3]), what=m[4]))
    return out


def check(prop, bc, bins, names):
    t0 = time.time()
    w = os.path.join(B, "work", prop)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    ents = entries_of(prop, names)
    if not ents:
        raise Fail("no entries for " + prop)
    bd = bindir()
    models = [l.split()[-1] for l in subprocess.run([bd + "/llvm-nm", bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines() if re.search(r" [Tt] model_", l)]
    param = 0 if TIER == "quick" else 1
    problems, evs, reps = [], [], {}
    cost = {}
    ef = os.path.join(V, "harness/expect.json")
    expect = json.load(open(ef)) if os.path.exists(ef) else {}
    for e in ents:
        cost[e] = expect.get(e, {}).get("cost", 0)
    heavy = [e for e in ents if cost[e] >= 8]

    def lower(i, group):
        a, b, c = [os.path.join(w, "m%d.%s.ll" % (i, x)) for x in "abc"]
        sh([bd + "/opt", "-S", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(group + models), bc, "-o", a])
        sh([SYMEX, "prep", a, b])
        sh([bd + "/opt", "-S", "-passes=globaldce,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", b, "-o", c])
        os.unlink(a)
        os.unlink(b)
        return c

    def one(e, ll):
        out = os.path.join(w, e + ".json")
        jobs = min(CORES, 8) if len(ents) <= 2 or e in heavy else 4
        cmd = [SYMEX, "run", ll, e, "--out", out, "--param", str(param), "--jobs", str(jobs)]
        cmd += ["--split", "2", "--deadline", str(int(max(60, min(560, 760 - (time.time() - START))))), "--rlimit", "60000000"] if TIER == "quick" else ["--split", "4", "--deadline", "7000", "--samples", "24"]
        log = open(os.path.join(w, e + ".log"), "w")
        rc = subprocess.run(cmd, stdout=log, stderr=log).returncode
        r = None
        if rc == 0 and os.path.exists(out):
            for k in range(int(open(out).read())):
                p = out + ".%d" % k
                if not os.path.exists(p):
                    problems.append("%s: worker %d left no report" % (e, k))
                    continue
                x = json.load(open(p))
                if r is None:
                    r = x
                    continue
                for q in ("paths", "killed", "forks", "instrs", "asserts", "assert_queries", "hash_apps", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_us"):
                    r[q] += x[q]
                r["max_us"] = max(r["max_us"], x["max_us"])
                r["wall"] = max(r["wall"], x["wall"])
                for q in ("errors", "reached"):
                    for a, b in x[q].items():
                        r[q][a] = r[q].get(a, 0) + b
                r["violations"] += x["violations"]
                r["samples"] += x["samples"]
                r["funcs"] = sorted(set(r["funcs"]) | set(x["funcs"]))
        if r is None:
            problems.append("%s: the symbolic executor ended with %d, see its log: %s" % (e, rc, open(os.path.join(w, e + ".log")).read()[-1500:]))
        return e, r

    # heaviest entries first, a few modules so that lowering runs in parallel
    ents = sorted(ents, key=lambda e: -cost[e])
    ng = min(4, len(ents))
    groups = [ents[i::ng] for i in range(ng)]
    with cf.ThreadPoolExecutor(ng) as ex:
        lls = list(ex.map(lambda t: lower(*t), enumerate(groups)))
    where = {e: lls[i] for i, g in enumerate(groups) for e in g}
    with cf.ThreadPoolExecutor(max(2, CORES // 2)) as ex:
        for e, r in ex.map(lambda e: one(e, where[e]), ents):
            if r is not None:
                reps[e] = r

    known = load_known()
    nviol, lines, kf, validated, tried = 0, [], set(), 0, 0
    for e, r in reps.items():
        seen = {}
        for v in r["violations"]:
            seen.setdefault((v["kind"], v["msg"], v["site"]), []).append(v)
        for (kind, msg, site), vs in seen.items():
            hit = None
            for v in vs[:6]:
                tried += 1
                res = [replay(b, e, v["input"], param) for b in bins]
                if any(reproduced(x[0]) for x in res):
                    hit = (v, res)
                    break
            if hit is None:
                problems.append("%s: counterexample does not reproduce natively: %s %s [%s] input %s -> %r" % (e, kind, msg, site, vs[0]["input"][:3000], [(x[0], x[1]) for x in res]))
                continue
            v, res = hit
            text = "%s %s [%s]" % (kind, msg, site)
            k = [q for q in known if q["property"] == prop and q["entry"] == e and q["rx"].search(text)]
            if k:
                kf.add(k[0]["what"])
                continue
            rd = os.path.join(B, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%s.json" % (prop, e, hashlib.sha256((text + v["input"]).encode()).hexdigest()[:10]))
            json.dump(dict(property=prop, entry=e, kind=kind, message=msg, site=site, input=v["input"], param=param, native=[dict(build=n, exit=x[0], end=x[1], observed=x[2]) for n, x in zip(("dev", "release"), res)], how="build/nat/debug/replay %s %s %d" % (e, v["input"], param)), open(rp, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
            evs.append("%s: %s; native replay: %s" % (e, text, "; ".join("%s %s" % (x[0], x[1]) for x in res)))
            nviol += 1
        for k, n in r["errors"].items():
            problems.append("%s: %d path(s) not decided: %s" % (e, n, k))
        if r["unknown"]:
            problems.append("%s: %d solver queries undecided" % (e, r["unknown"]))
        if r["paths"] == 0:
            problems.append("%s: no path completed" % e)
        exp = expect.get(e, {}).get(TIER)
        if UPDATE and not r["violations"]:
            expect.setdefault(e, {})[TIER] = sorted(r["reached"])
            if TIER == "quick":
                expect[e]["cost"] = int(r["wall"])
        elif exp is None:
            problems.append("%s: not in expect.json" % e)
        else:
            for l in exp:
                if l not in r["reached"]:
                    problems.append("%s: vacuous, label %r never reached" % (e, l))
        for s in r["samples"]:
            x = replay(bins[0], e, s["input"], param)
            if x[0] == 0 and [list(o) for o in x[2]] == s["obs"] and sorted(set(x[3])) == sorted(s["reach"]):
                validated += 1
            else:
                problems.append("%s: native run of a path model disagrees with the symbolic run: input %s exit %s %s\n  symbolic %r %r\n  native   %r %r" % (e, s["input"][:3000], x[0], x[1], s["obs"], s["reach"], x[2], x[3]))
    if UPDATE:
        json.dump(expect, open(ef, "w"), indent=0, sort_keys=True)
    tot = lambda k: sum(r[k] for r in reps.values())
    meta = json.load(open(os.path.join(V, "meta.json"))).get(prop, {}) if os.path.exists(os.path.join(V, "meta.json")) else {}
    funcs = sorted({f for r in reps.values() for f in r["funcs"]})
    cut = lambda t: t if len(t) <= 4000 else t[:4000] + "... (%d hex digits)" % len(t)
    smp = [dict(entry=e, input=cut(s["input"]), observed=[[k, cut(b)] for k, b in s["obs"]], labels=s["reach"]) for e, r in reps.items() for s in r["samples"][:1]][:40]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
        coverage=dict(states=tot("paths"), transitions=tot("instrs"), traces_validated_against_impl=validated, samples=smp or [dict(note="none")],
            explanation="states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; traces validated = solver models of complete paths replayed in the native build with identical observations",
            bounds=meta.get("bounds", ""), entries={e: dict(paths=r["paths"], assumed_away=r["killed"], instructions=r["instrs"], assertions=r["asserts"], assertion_queries=r["assert_queries"], hash_applications=r["hash_apps"], wall_s=round(r["wall"], 2), labels_reached=r["reached"]) for e, r in reps.items()},
            functions_encoded=funcs, queries_discharged=dict(total=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), answered_from_cache=tot("cache_hits"), answered_by_known_model=tot("model_hits")),
            solver_s=round(tot("solver_us") / 1e6, 3), assertions_decided=tot("asserts"), counterexamples_replayed=tried, violations_found=evs, undecided=problems, known_findings=sorted(kf)),
        assumptions=COMMON + meta.get("assumptions", []))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for l, x in zip(lines, evs):
        print(l)
        print("  " + x)
    for p in problems:
        print("PROBLEM " + p)
    print("%s %s: %d entries, %d paths, %d assertions, %d queries, %.1f s solver, %d models replayed, %d violations, %d problems, %.1f s" % (prop, TIER, len(reps), tot("paths"), tot("asserts"), tot("queries"), tot("solver_us") / 1e6, validated, nviol, len(problems), time.time() - t0))
    if not KEEP:
        shutil.rmtree(w, ignore_errors=True)
    sys.stdout.flush()
    return 1 if nviol else 2 if problems else 0


COMMON = [
    "holds within the stated bounds only: collection sizes, byte lengths and shapes enumerated by the harness; every scalar and every byte inside them is symbolic",
    "the code is the LLVM IR rustc emits for /repo's working tree with its locked dependencies (64-bit little-endian, std/builder/internals features), simplified by LLVM -O1; LLVM, rustc and Z3 are trusted",
    "SHA-256's compression function is an uninterpreted injective function (collision freedom is assumed); decimal number formatting produces no text; allocation never fails below the limits the harness sets",
]

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    try:
        bc, bins = build_all()
        if args == ["setup"]:
            sys.exit(0)
        names = sh([bins[0]]).split()
        props = args if args != ["all"] else sorted({n.split("_")[0].upper() for n in names if re.match(r"p\d\d_", n)})
        worst = 0
        for p in props:
            r = check(p, bc, bins, names)
            worst = r if worst == 0 or r == 1 else worst
        sys.exit(worst)
    except Fail as e:
        print("PROBLEM " + str(e))
        sys.exit(2)
