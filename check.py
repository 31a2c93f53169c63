#!/usr/bin/env python3
"""Driver: builds the engine, the harness IR and the native replayers from /repo's current tree,
runs the symbolic executor for one property and writes the evidence file.

  check.py setup                build everything
  check.py C03                  decide one property (VERIF_TIER=quick|thorough)
  check.py --replay FILE        re-run a counterexample natively against /repo's current tree
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IRSE_REPO", "/repo")
BUILD = os.path.join(V, "build")
CRATES = ["common", "multi-target-decision-tree", "multi-target-grad-boost"]
OFF = {"QUICK_BUDGET": 100, "THOROUGH_BUDGET": 780}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("%s failed (%s)\n%s" % (what, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "evidence"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()


def write_if_changed(p, s):
    try:
        with open(p) as f:
            if f.read() == s:
                return
    except OSError:
        pass
    with open(p, "w") as f:
        f.write(s)


def project(kind, src):
    d = os.path.join(BUILD, kind)
    os.makedirs(d, exist_ok=True)
    t = '[package]\nname = "h"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[features]\n'
    if kind == "ir":
        t += 'default = ["sym"]\n'
    elif kind == "nshim":
        t += 'default = ["order"]\n'
    t += "sym = []\norder = []\n[[bin]]\nname = \"h\"\npath = \"%s/main.rs\"\n[dependencies]\n" % src
    for c in CRATES:
        t += '%s = { path = "%s/%s" }\n' % (c, REPO, c)
    if kind != "native":
        t += '[patch.crates-io]\nrayon = { path = "%s/shim" }\n' % V
    t += "[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\ndebug-assertions = false\n"
    if kind == "ir":
        t += 'lto = "fat"\npanic = "abort"\ncodegen-units = 1\n'
    write_if_changed(os.path.join(d, "Cargo.toml"), t)
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    return d


def items(text):
    """the functions at the top level of a harness file: name -> (first line, line of the body's brace, last line)"""
    out, lines, i = {}, text.split("\n"), 0
    while i < len(lines):
        m = re.match(r"(?:pub )?fn (\w+)", lines[i])
        if m:
            b = i
            while not lines[b].rstrip().endswith("{"):
                b += 1
            e = b
            while lines[e] != "}":
                e += 1
            out[m.group(1)] = (i, b, e)
            i = e
        i += 1
    return out


def without(errors, src, gone):
    """take the functions (and imports) of the harness out that do not compile against this tree"""
    changed = False
    for name in ("props.rs", "util.rs"):
        p = os.path.join(src, name)
        lines = open(p).read().split("\n")
        fns = items("\n".join(lines))
        for n in sorted({int(x) for f, x in errors if f == name}):
            if n > len(lines):
                continue
            if lines[n - 1].startswith("use "):
                lines[n - 1] = "//" + lines[n - 1]
                changed = True
                continue
            for f, (a, b, e) in fns.items():
                if a <= n - 1 <= e and f not in gone:
                    gone.append(f)
                    for i in range(b + 1, e):
                        lines[i] = ""
                    lines[e] = 'panic!("not available") }'
                    changed = True
        with open(p, "w") as f:
            f.write("\n".join(lines))
    return changed


def reduced(hh):
    """a copy of the harness without what the tree no longer offers (a renamed function, a moved module):
    the properties that do not need it are still decided"""
    src = os.path.join(BUILD, "src")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(V, "harness/src"), src)
    gone = []
    d = project("native", src)
    forget(d)
    for _ in range(12):
        r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format", "short"], cwd=d, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            with open(os.path.join(BUILD, "gone.json"), "w") as f:
                json.dump([hh, gone], f)
            return True
        errors = re.findall(r"(?m)^\S*/(\w+\.rs):(\d+):\d+: error", r.stdout)
        if not errors or not without(errors, src, gone):
            return False
    return False


def gone_for(prop, hh):
    """does the harness of the property use something that had to be taken out?"""
    try:
        h, gone = json.load(open(os.path.join(BUILD, "gone.json")))
    except (OSError, ValueError):
        return []
    if h != hh:
        return []
    uses = {}
    for n in ("props.rs", "util.rs"):
        t = open(os.path.join(V, "harness/src", n)).read()
        lines = t.split("\n")
        for f, (a, b, e) in items(t).items():
            uses[f] = set(re.findall(r"\b(\w+)\b", "\n".join(lines[b:e])))
    seen, todo = set(), ["c" + prop[1:]]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += [x for x in uses.get(f, ()) if x in uses]
    return sorted(seen & set(gone))


def forget(d):
    """cargo looks at time stamps; make it rebuild the crates of the tree whatever they say"""
    for pat in CRATES + ["h", "rayon"]:
        for f in glob.glob(os.path.join(d, "target/debug/.fingerprint/%s-*" % pat)):
            shutil.rmtree(f, ignore_errors=True)


LAST = ""


def compile_all(hh, src):
    global LAST
    jobs = []
    for k in ("ir", "native", "nshim"):
        d = project(k, src)
        st = os.path.join(d, "stamp")
        key = hh + open(os.path.join(d, "Cargo.toml")).read()
        out = glob.glob(os.path.join(d, "target/debug/deps/h-*.ll")) if k == "ir" else glob.glob(os.path.join(d, "target/debug/h"))
        if out and os.path.exists(st) and open(st).read() == key:
            continue
        if os.path.exists(st):
            os.remove(st)
        forget(d)
        if k == "ir":
            for f in glob.glob(os.path.join(d, "target/debug/deps/h-*")):
                os.remove(f)
            cmd = ["cargo", "rustc", "--offline", "-q", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
                   "-C", "no-vectorize-slp", "-C", "linker=/bin/true"]
        else:
            cmd = ["cargo", "build", "--offline", "-q"]
        p = subprocess.Popen(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        jobs.append((k, p, st, key))
    good = True
    for k, p, st, key in jobs:
        o, _ = p.communicate()
        if p.returncode != 0:
            LAST = o
            good = False
            continue
        with open(st, "w") as f:
            f.write(key)
    return good


def build():
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # the engine
        eh = tree_hash([os.path.join(V, "engine")])
        stamp = os.path.join(BUILD, "engine.stamp")
        binary = os.path.join(V, "engine/target/release/irse")
        cur = open(stamp).read() if os.path.exists(stamp) else ""
        engine = None
        if cur != eh or not os.path.exists(binary):
            for f in glob.glob(os.path.join(V, "engine/target/release/.fingerprint/irse-*")):
                shutil.rmtree(f, ignore_errors=True)
            engine = subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"),
                                      env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        # the code under test with the harnesses
        hh = tree_hash([REPO, os.path.join(V, "harness"), os.path.join(V, "shim")])
        src = os.path.join(V, "harness/src")
        try:
            if json.load(open(os.path.join(BUILD, "gone.json")))[0] == hh:
                src = os.path.join(BUILD, "src")
        except (OSError, ValueError):
            pass
        if not compile_all(hh, src):
            if src != os.path.join(V, "harness/src") or not reduced(hh):
                die("building %s with the harness failed\n%s" % (REPO, LAST[-6000:]))
            if not compile_all(hh, os.path.join(BUILD, "src")):
                die("building %s with the reduced harness failed\n%s" % (REPO, LAST[-6000:]))
        if engine is not None:
            o, _ = engine.communicate()
            if engine.returncode != 0:
                die("building the engine failed\n" + o[-6000:])
            with open(stamp, "w") as f:
                f.write(eh)
        ll = glob.glob(os.path.join(BUILD, "ir/target/debug/deps/h-*.ll"))
        if not ll:
            die("no IR was produced")
        # private copies, so that another check may rebuild meanwhile
    return max(ll, key=os.path.getmtime), time.time() - t0, hh


def paths():
    return (os.path.join(V, "engine/target/release/irse"), os.path.join(BUILD, "native/target/debug/h"),
            os.path.join(BUILD, "nshim/target/debug/h"))


def known(prop):
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip())
    return out


def replay(f):
    d = json.load(open(f))
    build()
    _, nat, shim = paths()
    scratch = tempfile.mkdtemp(prefix="irse_")
    try:
        r = subprocess.run([shim if d.get("scheds") else nat, "--serve"], input=d["line"] + "\n", cwd=scratch,
                           env=dict(os.environ, IRSE_SCRATCH=scratch), capture_output=True, text=True, timeout=60)
        v = r.stdout.split("\t")[0].strip() if r.stdout else "crash: exit status %d" % r.returncode
    except subprocess.TimeoutExpired:
        v = "hang: no answer within 60 s"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("%s: %s" % (d["property"], v))
    return 0 if v in ("ok", "assume") else 1


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfgs, skipped = [], 0
    for l in open(os.path.join(V, "configs.txt")):
        w = l.split()
        if len(w) >= 4 and w[0] == prop:
            if w[1] == "q" or tier == "thorough":
                cfgs.append((w[2], w[3]))
            else:
                skipped += 1
    if not cfgs:
        die("no configuration for " + prop)
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    ll, build_s, hh = build()
    gone = gone_for(prop, hh)
    if gone:
        die("the tree no longer offers what the harness of %s uses (%s)" % (prop, ", ".join(gone)))
    irse, nat, shim = paths()
    scratch = tempfile.mkdtemp(prefix="irse_")
    try:
        # copies, so that a rebuild by another check cannot pull them away
        for src, n in ((ll, "h.ll"), (nat, "h.native"), (shim, "h.nshim")):
            shutil.copy(src, os.path.join(scratch, n))
        cf = os.path.join(scratch, "configs")
        with open(cf, "w") as f:
            for n, p in cfgs:
                f.write("%s %d %s %s\n" % (prop, int(prop[1:]), n, p))
        budget = float(os.environ.get("IRSE_BUDGET", OFF["QUICK_BUDGET"] if tier == "quick" else OFF["THOROUGH_BUDGET"]))
        out = os.path.join(scratch, "out.json")
        cmd = [irse, "--ll", os.path.join(scratch, "h.ll"), "--native", os.path.join(scratch, "h.native"),
               "--native-shim", os.path.join(scratch, "h.nshim"), "--configs", cf, "--out", out, "--budget", str(budget),
               "--threads", str(os.cpu_count() or 8), "--seed", str(seed), "--timeout", "3000" if tier == "quick" else "10000",
               "--validate", "40" if tier == "quick" else "100"]
        r = subprocess.run(cmd, cwd=scratch, env=dict(os.environ, IRSE_SCRATCH=scratch), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=budget + 90)
        if r.returncode != 0 or not os.path.exists(out):
            die("the engine failed: " + r.stderr[-3000:])
        d = json.load(open(out))
    except subprocess.TimeoutExpired:
        die("the engine did not stop in time")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cs = d["configs"]
    tot = lambda k: sum(c[k] for c in cs)
    checks = {}
    for c in cs:
        for k, v in c["checks"].items():
            e = checks.setdefault(k, [0, 0, 0, 0])
            for i in range(4):
                e[i] += v[i]
    confirmed = [v for v in d["violations"] if v["confirmed"]]
    unconf = [v for v in d["violations"] if not v["confirmed"]]
    done = tot("done")
    bounds = []
    for c in cs:
        b = {"name": c["name"], "parameters": c["params"], "paths": c["paths"], "completed": c["done"],
             "exhausted": c["leftover"] == 0 and c["unsupported"] == 0 and c["concretized"] == 0 and c["paths"] > 0,
             "undecided_branches": c["unknown_branches"], "undecided_assertions": sum(v[3] for v in c["checks"].values())}
        for k in ("leftover", "unsupported", "concretized", "unconfirmed", "diverged", "rejected_as_expected"):
            if c[k]:
                b[k] = c[k]
        if c["unsupported_msgs"]:
            b["unsupported_reasons"] = c["unsupported_msgs"]
        if c["first_divergence"]:
            b["first_divergence"] = c["first_divergence"][:500]
        bounds.append(b)
    fns = d["functions"]
    mine = [f for f in fns if any(x in f for x in ("common", "multi_target_decision_tree", "multi_target_grad_boost")) and "harness" not in f]
    harness = open(os.path.join(V, "harness/src/props.rs")).read()
    pos = harness.find("\nfn c%s()" % prop[1:])
    com = harness[:pos].rstrip().split("\n")[-1] if pos > 0 else ""
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [c["sample"] for c in cs if c["sample"]][:4] or ["no completed path"],
            "exhaustive": False,
            "rule": "states: ends of paths of the symbolic execution tree; transitions: feasible branch decisions taken on them; "
                    "traces validated: solver models of completed paths replayed against the native build with equal observations",
            "instructions_executed": tot("instructions"),
            "completed_paths": done,
            "configurations": bounds,
            "configurations_exhausted": sum(1 for b in bounds if b["exhausted"]),
            "parameters_meaning": com.lstrip("/ "),
            "assertions": {"ids": len(checks), "asserted_on_paths": sum(sum(v) for v in checks.values()),
                           "decided_by_evaluation": sum(v[0] for v in checks.values()),
                           "decided_by_interval_bounds": sum(v[1] for v in checks.values()),
                           "decided_by_solver": sum(v[2] for v in checks.values()),
                           "undecided": sum(v[3] for v in checks.values())},
            "solver": d["solver"],
            "functions_encoded": len(fns),
            "functions_encoded_of_repo": mine[:200],
            "unconfirmed_counterexamples": [{k: v[k] for k in ("check", "what", "line")} for v in unconf][:5],
            "build_s": round(build_s, 2), "engine_s": d["wall_s"],
        },
        "assumptions": [
            "f64 arithmetic on symbolic values is exact real arithmetic (no rounding, no overflow); counterexamples are replayed with the real f64",
            "sizes, depths and numbers of stages are the listed parameters; other sizes are not covered",
            "symbolic inputs lie in the ranges of harness/src/util.rs; exp is an uninterpreted increasing positive function with exp(0)=1 (plus the bounds in the engine)",
            "z3 and the symbolic executor in engine/ are trusted for 'no counterexample'; sampled paths are compared with native runs",
            "parallel tasks run one after another in every order (no preemption inside a task)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    kn = known(prop)
    for l in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[-1]))
    rc = 0
    rep = os.path.join(ev, "replays")
    for i, v in enumerate(confirmed):
        if any(v["line"] in l for l in kn):
            continue
        os.makedirs(rep, exist_ok=True)
        f = os.path.join(rep, "%s-%d.json" % (prop, i))
        v = dict(v, property=prop, config=cs[v["cfg"]]["name"], how="python3 %s/check.py --replay %s" % (V, f))
        with open(f, "w") as fh:
            json.dump(v, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  configuration %s (%s): assertion %s: %s" % (v["config"], cs[v["cfg"]]["params"], v["check"], v["what"]))
        print("  native run: %s" % v["native"])
        print("  inputs %s choices %s task order %s" % (v["inputs"], v["choices"], v["scheds"]))
        rc = 1
    with open(os.path.join(ev, prop + ".json"), "w") as fh:
        json.dump(e, fh, indent=1)
    und = e["coverage"]["assertions"]["undecided"]
    print("%s %s: %d/%d configurations exhausted, %d paths, %d assertions (%d undecided), %d queries (%.1f s in the solver), "
          "%d traces validated, %.1f s" % (prop, tier, e["coverage"]["configurations_exhausted"], len(cs), tot("paths"),
          e["coverage"]["assertions"]["asserted_on_paths"], und, d["solver"]["queries"], d["solver"]["solver_s"], tot("validated"), e["wall_s"]))
    if tot("unsupported"):
        print("  %d paths left because of unsupported operations: %s" % (tot("unsupported"), [c["unsupported_msgs"] for c in cs if c["unsupported_msgs"]][:3]))
    if rc == 0 and done + tot("rejected_as_expected") == 0:
        die("nothing could be explored")
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        s = build()[1]
        print("built in %.1f s" % s)
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    return check(a[0])


sys.exit(main())
