#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Builds the analyser, compiles /repo's current tree (MIR only is used, nothing of it is run) with the
harness crate /verif/probe, analyses the harnesses of the property and reports.
Exit 0: no violation; 1: violation (VIOLATION line); 2: the check itself could not run."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
JOBS = 8
# property -> harness modules; the modules in HEAVY are run one harness per process
MODULES = json.load(open(os.path.join(ROOT, "modules.json")))
HEAVY = lambda m: m.endswith(("p", "s")) and not m.endswith("ds")


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_", "VABS_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def run(cmd, env, cwd, what, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        die(what + " failed")
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO, os.path.join(ROOT, "probe")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", ".work"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock"))]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """the analyser, then the crates under analysis; returns (vabs, env, rustc arguments of the probe)"""
    os.makedirs(WORK, exist_ok=True)
    env = clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(WORK, "analyzer")
    run(["cargo", "+nightly", "build", "--offline", "--locked"], env, os.path.join(ROOT, "analyzer"), "building the analyser")
    vabs = os.path.join(WORK, "analyzer", "debug", "vabs")
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], clean_env(), ROOT, "finding the toolchain").strip().splitlines()[-1]
    env = clean_env()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + os.environ["LD_LIBRARY_PATH"] if os.environ.get("LD_LIBRARY_PATH") else "")
    env["RUST_MIN_STACK"] = str(1 << 30)
    h = tree_hash()
    tgt = os.path.join(WORK, "probe")
    mark = os.path.join(WORK, "probe.hash")
    rec = os.path.join(WORK, "probe.args")
    if not (os.path.exists(mark) and os.path.exists(rec) and open(mark).read() == h):
        shutil.rmtree(tgt, ignore_errors=True)
        for f in (mark, rec):
            if os.path.exists(f):
                os.remove(f)
        e = dict(env)
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zub-checks=no"
        e["RUSTC_WORKSPACE_WRAPPER"] = vabs
        e["VABS_RECORD"] = rec
        run(["cargo", "+nightly", "build", "--offline", "--locked"], e, os.path.join(ROOT, "probe"), "compiling /repo with the harness crate")
        if not os.path.exists(rec):
            die("the compilation of the harness crate was not observed")
        open(mark, "w").write(h)
    args = open(rec).read().split("\0")
    # what cargo sets for the compilation
    env["CARGO_PKG_NAME"] = "probe"
    env["CARGO_MANIFEST_DIR"] = os.path.join(ROOT, "probe")
    return vabs, env, args


def analyse(vabs, env, args, props, only, out, budget, timeout, extra=None):
    e = dict(env)
    e.update({"VABS_PROPS": ",".join(props), "VABS_ONLY": only, "VABS_OUT": out, "VABS_BUDGET": str(budget)})
    e.update(extra or {})
    if os.path.exists(out):
        os.remove(out)
    log = out + ".log"
    status = "ok"
    with open(log, "w") as lf:
        p = subprocess.Popen([vabs] + args, env=e, cwd=os.path.join(ROOT, "probe"), stdout=lf, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            status = "timeout"
    rows = []
    if os.path.exists(out):
        for l in open(out):
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
    if not any(r.get("done") for r in rows):
        if status == "ok":
            status = "stopped"
    return rows, status


def known_findings():
    r = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) harness=(\S+) what=\"([^\"]*)\" (.*)", l.strip())
        if m:
            r.append(m.groups())
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mods = MODULES[prop]
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    vabs, env, args = build()
    res = os.path.join(WORK, "out-" + prop)
    shutil.rmtree(res, ignore_errors=True)
    os.makedirs(res)
    overall = 700 if tier == "quick" else 3400
    budget, tmo = (200, 290) if tier == "quick" else (900, 1000)
    jobs = []
    light = [m for m in mods if not HEAVY(m) and not m.endswith("ds")]
    heavy = [m for m in mods if HEAVY(m)]
    if light:
        jobs.append((light, "", tmo * 2, 60))
    jobs += [([m], "", tmo, 60) for m in mods if m.endswith("ds")]
    if heavy:
        rows, st = analyse(vabs, env, args, heavy, "", os.path.join(res, "list.jsonl"), 1, 60, {"VABS_LIST": "1"})
        # bounded inputs first: they settle quickly
        names = sorted((r["list"] for r in rows if "list" in r), key=lambda n: not n.split("::")[0].endswith("s"))
        if st != "ok" or not names:
            die("cannot list the harnesses")
        jobs += [([n.split("::")[0]], n, tmo, budget) for n in names]
    rows, trouble, found = [], [], []
    known = [k for k in known_findings() if k[0] == prop]

    def job(i_j):
        i, (ms, only, tm, bud) = i_j
        left = overall - (time.time() - t0)
        if found and tier == "quick":
            return [], "ok", ""
        if left < 5:
            return [], "not started: out of time", only or ",".join(ms)
        tm = min(tm, left)
        r, s = analyse(vabs, env, args, ms, only, os.path.join(res, "j%d.jsonl" % i), min(bud, max(1, tm - 10)), tm)
        for h in r:
            for x in h.get("reports", []) if "harness" in h else []:
                if x["what"].split(" ")[0] == prop and not any(x["harness"] == k[1] and x["what"] == k[2] for k in known):
                    found.append(x)
        return r, s, only or ",".join(ms)

    with ThreadPoolExecutor(JOBS) as ex:
        for r, s, n in ex.map(job, enumerate(jobs)):
            rows += r
            if s != "ok":
                trouble.append("%s: %s" % (n, s))
    hs = [r for r in rows if "harness" in r]
    scan = next((r["scan"] for r in rows if "scan" in r), None)
    reports, undecided = [], list(trouble)
    obligations, panics, paths, fns, relevant = 0, 0, 0, set(), []
    for h in hs:
        n = h["obligations"].get(prop, 0)
        mine = [r for r in h["reports"] if r["what"].split(" ")[0] == prop]
        if prop == "C18":
            n = h["paths"] + h["panics"]
        if n == 0 and not mine and not h["undecided"]:
            continue
        relevant.append(h)
        obligations += n
        paths += h["paths"]
        panics += h["panics"]
        fns.update(h["functions"])
        reports += mine
        for u in h["undecided"]:
            # a remark on another property's obligation does not concern this one
            if re.match(r"C\d\d ", u) and not u.startswith(prop + " "):
                continue
            undecided.append("%s: %s" % (h["harness"], u))
    if prop == "C17":
        if not scan:
            die("the effect analysis did not finish")
        pos = open(os.path.join(ROOT, "probe", "src", "positive.rs")).read()
        want = set(re.findall(r"^pub fn (\w+)", pos, re.M))
        got = set(h["function"].split("positive::")[1].split("::")[0] for h in scan["positive"]["hits"] if "positive::" in h["function"])
        if want - got:
            die("self-test of the effect rules failed: not recognised: %s" % sorted(want - got))
        for h in scan["venial"]["hits"]:
            reports.append({"what": "C17 " + h["what"], "harness": h["function"], "detail": h["at"], "path": []})
        obligations = scan["venial"]["call_sites"] + scan["venial"]["statics"]
    elif not relevant:
        die("nothing was analysed")
    nar = None
    if prop == "C07":
        nar = next((r["narrow"] for r in rows if "narrow" in r), None)
        if not nar:
            die("the counter rule did not finish")
        src = open(os.path.join(ROOT, "probe", "src", "narrow_example.rs")).read()
        want = set(re.findall(r"^    pub fn (\w+)", src.split("pub mod no")[0], re.M))
        got = set(h["function"].split("narrow_example::")[1] for h in nar["positive"])
        if got != set("yes::" + w for w in want):
            die("self-test of the counter rule failed: %s" % sorted(got ^ set("yes::" + w for w in want)))
        for h in nar["hits"]:
            reports.append({"what": "C07 a nesting or element counter of 8 or 16 bits is incremented in a loop without a limit", "harness": h["function"], "detail": h["at"], "path": []})
        obligations += nar["functions"]
    new, seen_known = [], []
    for r in reports:
        k = next((k for k in known if r["harness"] == k[1] and r["what"] == k[2]), None)
        (seen_known if k else new).append((r, k))
    for r, k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    cov = {
        "explanation": "abstract interpretation of the compiled (MIR) form of /repo with arbitrary symbolic inputs; every path of every harness ends in a decided obligation or is counted as undecided; nothing of /repo is executed"
        if prop != "C17" else "effect analysis: every function and closure of the crate is visited, every callee (with the implementation a trait call resolves to), every named static, raw-pointer operation and pointer-to-integer cast is classified",
        "obligations": obligations,
        "discharged": max(0, obligations - len(reports) - (len(undecided) if prop != "C17" else 0)),
        "undecided": len(undecided),
        "undecided_samples": undecided[:10],
        "harnesses": len(relevant),
        "paths": paths,
        "paths_ending_in_panic": panics,
        "abstract_steps": sum(h["steps"] for h in relevant),
        "loops_as_maps": sum(h["loops_map"] for h in relevant),
        "loops_by_invariant": sum(h["loops_inv"] for h in relevant),
        "loops_unrolled": sum(h["loops_unrolled"] for h in relevant),
        "functions_of_repo": sorted(fns) if prop != "C17" else scan["venial"]["functions"],
        "samples": [{k: h[k] for k in ("harness", "paths", "obligations", "steps", "forks", "wall_s")} for h in relevant[:6]],
    }
    if nar:
        cov["functions_scanned_for_narrow_counters"] = nar["functions"]
        cov["self_test_examples"] = len(want)
    if prop == "C17":
        cov["call_sites"] = scan["venial"]["call_sites"]
        cov["distinct_callees"] = len(scan["venial"]["callees"])
        cov["samples"] = scan["venial"]["callees"][:25]
        cov["self_test_examples"] = len(want)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": ["models of core/alloc/std, proc_macro2 and quote in analyzer/src/models.rs and probe/src/sh.rs", "rustc nightly's MIR is what the source means"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations in %d harnesses, %d paths, %d undecided, %d reports (%d known), %.0f s"
          % (prop, obligations, len(relevant), paths, len(undecided), len(reports), len(seen_known), time.time() - t0))
    for u in undecided[:5]:
        print("  undecided: " + u)
    if new:
        rp = os.path.join(WORK, "replay")
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, prop + ".txt")
        with open(f, "w") as o:
            o.write("replay: cd /verif && python3 check.py %s\n" % prop)
            for r, _ in new:
                o.write("\n%s\n  in %s\n  %s\n" % (r["what"], r["harness"], r["detail"]))
                for p in r["path"]:
                    o.write("    %s\n" % p)
        for r, _ in new[:10]:
            at = r["path"][-1] if r["path"] else ""
            print("  %s | %s | %s | %s" % (r["what"], r["harness"], r["detail"][:300], at))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        sys.exit(1)
    sys.exit(0)


main()
