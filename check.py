#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Builds the harness crate against /repo's working tree, hands its LLVM IR to
the symbolic executor, and reports the solver's verdict on the property.
Exit 0: held; exit 1 with a VIOLATION line: broken; 2: the check failed."""

import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from registry import PROPS, NO_RANDOM, EXTRAPOLATED

T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARD = {"quick": 800, "thorough": 6 * 3600}
BUILD = os.path.join(VERIF, "build")


class Fail(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    return e


def sh(cmd, timeout=600, cwd=None, ok=True, **k):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, **k)
    if ok and r.returncode != 0:
        raise Fail("%s failed (%d):\n%s" % (" ".join(cmd[:6]), r.returncode, (r.stdout + r.stderr)[-3000:]))
    return r


def files(root, subs, ext):
    out = []
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(p)
        for d, dn, fs in os.walk(p):
            dn.sort()
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(ext)]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    src = files(os.path.join(VERIF, "engine"), ["src", "Cargo.toml"], ".rs")
    key = digest(src)
    out = os.path.join(BUILD, "symex-" + key)
    with Lock("engine"):
        if not os.path.exists(out):
            t = os.path.join(VERIF, "engine", "target")
            sh(["cargo", "build", "--release", "--offline", "-q", "--target-dir", t], cwd=os.path.join(VERIF, "engine"))
            for f in os.listdir(BUILD):
                if f.startswith("symex-"):
                    os.unlink(os.path.join(BUILD, f))
            shutil.copy2(os.path.join(t, "release", "symex"), out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def opt_bin():
    root = os.path.expanduser("~/.rustup/toolchains")
    r = sh(["rustc", "--print", "sysroot"]).stdout.strip()
    b = os.path.join(r, "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    return b if os.path.exists(b) else "opt"


def product(tree, name, make):
    """One file of this tree's build directory, made once."""
    out = os.path.join(tree, name)
    if os.path.exists(out):
        return out
    with Lock("tree-" + os.path.basename(tree) + "-" + name):
        if not os.path.exists(out):
            make(out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


HARN = os.path.join(VERIF, "harness")


def tree_dir():
    src = files(HARN, ["src", "Cargo.toml", "Cargo.lock"], ".rs")
    src += files(REPO, ["src", "Cargo.toml", "Cargo.lock", "build.rs"], "")
    d = os.path.join(BUILD, "t-" + digest(src))
    with Lock("trees"):
        if not os.path.isdir(d):
            os.makedirs(d)
        olds = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD) if x.startswith("t-"))
        for m, x in olds[:-6]:
            if time.time() - m > 4 * 3600 and os.path.join(BUILD, x) != d:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return d


def make_ir(tree, profile="irdev", opt=None):
    """LLVM IR of the harnesses and everything they reach, from the sources."""
    api = sorted(set(re.findall(r"::(h_[a-z0-9_]+)", open(os.path.join(HARN, "src", "lib.rs")).read())))

    def bc(out):
        t = os.path.join(tree, "target-" + profile)
        sh(["cargo", "rustc", "--offline", "--locked", "-q", "--lib", "--crate-type", "cdylib", "--profile", profile, "--target-dir", t, "--", "--emit=llvm-bc"], cwd=HARN)
        shutil.copy(os.path.join(t, profile, "deps", "vharness.bc"), out)
        shutil.rmtree(t, ignore_errors=True)

    b = product(tree, profile + ".bc", bc)

    def ll(out):
        passes = "internalize,globaldce"
        if opt:
            passes += "," + opt
        sh([opt_bin(), "-passes=" + passes, "-internalize-public-api-list=" + ",".join(api), b, "-S", "-o", out])

    return product(tree, profile + ("" if not opt else "-o") + ".ll", ll)


def make_replay(tree, profile):
    def mk(out):
        t = os.path.join(tree, "target-r" + profile)
        sh(["cargo", "build", "--offline", "--locked", "-q", "--bin", "replay", "--profile", profile, "--target-dir", t], cwd=HARN)
        shutil.copy2(os.path.join(t, "debug" if profile == "dev" else profile, "replay"), out)
        shutil.rmtree(t, ignore_errors=True)

    return product(tree, "replay-" + profile, mk)


def script_text(cases):
    s = ""
    for h, ch, inp in cases:
        s += "case %s\nchoices %s\n" % (h, " ".join(map(str, ch)))
        s += "".join("input %s\n" % x for x in inp)
    return s


def native(binary, cases, tier, timeout, tmp):
    """Run cases natively; one verdict per case that was reached."""
    with open(tmp, "w") as f:
        f.write(script_text(cases))
    cmd = ["prlimit", "--as=%d" % (6 << 30), "--core=0", binary, tmp, "1" if tier == "thorough" else "0"]
    p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD)
    try:
        o, e = p.communicate(timeout=timeout)
        end = None if p.returncode == 0 else "FAIL process ended with status %d" % p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        end = "FAIL did not return within %d s" % timeout
    lines = o.splitlines()
    if o and not o.endswith("\n"):
        lines.pop()
    res = []
    for l in lines:
        hx, _, tail = l.partition(" ")
        res.append((hx, tail))
    if end and len(res) < len(cases):
        res.append(("", end))
    return res, e


def demangle(n):
    if n.startswith("_ZN"):
        out, i = [], 3
        while i < len(n) and n[i].isdigit():
            m = re.match(r"\d+", n[i:])
            k = int(m.group())
            i += len(m.group())
            out.append(n[i:i + k])
            i += k
        if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
            out.pop()
        return "::".join(out).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::").replace("$RF$", "&").replace("$C$", ",")
    ids = []
    i = 0
    while i < len(n):
        m = re.match(r"(\d+)_?", n[i:])
        if m and not n[i - 1:i].isalnum() or (m and n[i - 1:i].isalpha()):
            k = int(m.group(1))
            s = n[i + len(m.group()):i + len(m.group()) + k]
            if k and len(s) == k and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s):
                ids.append(s)
                i += len(m.group()) + k
                continue
            i += len(m.group())
        else:
            i += 1
    return "::".join(ids) or n


def random_cases(rng, h, n):
    out = []
    for k in range(n):
        ch = [rng.randrange(1 << 31) for _ in range(4)]
        inp = []
        for _ in range(10):
            style = rng.randrange(6)
            ln = rng.choice([16, 64, 700])
            if style == 0:
                b = bytes([rng.choice([0, 1, 0xFF, 0x80, 16])]) * ln
            elif style == 1:
                b = bytes(rng.choice([0, 1, 2, 15, 16, 17, 255]) for _ in range(ln))
            else:
                b = rng.randbytes(ln)
            inp.append(b.hex())
        out.append((h, ch, inp))
    return out


def known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def run_engine(binary, ir, hs, tier, budget, out, extra=()):
    cmd = [binary, "run", "--ir", ir, "--harness", ",".join(hs), "--tier", "1" if tier == "thorough" else "0", "--threads", "8",
           "--budget", str(int(budget)), "--job-timeout", str(int(budget)), "--seed", str(SEED), "--out", out] + list(extra)
    try:
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 150)
    except subprocess.TimeoutExpired:
        raise Fail("executor did not stop within its budget")
    if not os.path.exists(out):
        raise Fail("executor: %s" % (r.stdout + r.stderr)[-2000:])
    return json.load(open(out))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    tier = "thorough" if tier == "thorough" else "quick"
    prop = a[0]
    P = PROPS[prop]
    hs = P["h"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    tree = tree_dir()
    work = os.path.join(tree, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    code = 2
    try:
        code = decide(prop, P, hs, tier, tree, work)
    except Fail as e:
        say("ERROR property=%s %s" % (prop, e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, P, hs, tier, tree, work):
    left = lambda: HARD[tier] - (time.time() - T0)
    # ---- build everything from the current tree, in parallel
    got, errs = {}, []

    def bg(name, f):
        def g():
            try:
                got[name] = f()
            except Exception as e:
                errs.append("%s: %s" % (name, e))
        t = threading.Thread(target=g)
        t.start()
        return t

    ts = [bg("engine", engine), bg("ir", lambda: make_ir(tree)), bg("dev", lambda: make_replay(tree, "dev")), bg("release", lambda: make_replay(tree, "release"))]
    for t in ts:
        t.join()
    if errs:
        raise Fail("; ".join(errs))
    build_s = time.time() - T0

    # ---- the solver's verdict
    budget = min(left() - 260, 420) if tier == "quick" else left() - 900
    extra = ["--xcheck", "cvc5", "--xcheck-n", "40" if tier == "quick" else "1000"]
    if tier == "thorough":
        extra += ["--query-ms", "6000", "--final-ms", "300000"]
    res = run_engine(got["engine"], got["ir"], hs, tier, budget, os.path.join(work, "out.json"), extra)
    runs = [("irdev", res)]
    H = dict(res["harnesses"])
    failed = [h for h in hs if H[h]["errors"] and not H[h]["violations"]]
    if failed and left() > 330:
        # another form of the same code: registers instead of stack slots
        try:
            ir2 = make_ir(tree, "irdev", "sroa,instcombine<no-verify-fixpoint>,simplifycfg")
            r2 = run_engine(got["engine"], ir2, failed, tier, min(left() - 230, 300 if tier == "quick" else 1e9), os.path.join(work, "out2.json"),
                            extra + ["--final-ms", "120000"])
            runs.append(("irdev-o", r2))
            for h in failed:
                if not r2["harnesses"][h]["errors"] or r2["harnesses"][h]["violations"]:
                    H[h] = r2["harnesses"][h]
        except Fail as e:
            say("note: second form: %s" % str(e)[:500])
    if tier == "thorough" and left() > 1200:
        # the same with release arithmetic
        try:
            r3 = run_engine(got["engine"], make_ir(tree, "irrel"), hs, "quick", min(left() - 900, 1800), os.path.join(work, "out3.json"))
            runs.append(("irrel", r3))
        except Fail as e:
            say("note: release form: %s" % str(e)[:500])
    for f in os.listdir(work):
        pass

    # ---- counterexamples, replayed on the real code
    kf = [k for k in known()["known"] if k["property"] == prop]
    confirmed, unconfirmed, findings = [], [], []
    cands = [(h, v, tier) for h in hs for v in H[h]["violations"]]
    for form, r in runs:
        if form == "irrel":
            cands += [(h, v, "quick") for h in hs for v in r["harnesses"][h]["violations"]]
    # harnesses lent by other properties count here for their panics only
    lent = P.get("panics_of", [])
    cands = [(h, v, vt) for h, v, vt in cands if h not in lent or v["kind"] not in ("mismatch", "false", "deep")]
    for h, v, vt in cands:
        case = (h, v["choices"], v["inputs"])
        how = []
        for prof in ("dev", "release"):
            tmo = 25 if v["kind"] == "deep" else 90
            rs, e = native(got[prof], [case], vt, min(tmo, max(left() - 30, 5)), os.path.join(work, "case"))
            tail = rs[0][1] if rs else "FAIL no output"
            if h in EXTRAPOLATED and "did not return" in tail:
                continue
            if h in lent and "panic" not in tail:
                continue
            if tail.startswith("FAIL"):
                how.append("%s: %s %s" % (prof, tail[5:], e.strip().splitlines()[0][:200] if e.strip() else ""))
        if not how:
            unconfirmed.append((h, v))
            continue
        k = next((k for k in kf if k["harness"] == h and v["tag"] in k["tags"]), None)
        if k:
            findings.append((k, h, v, how))
            continue
        confirmed.append((case, vt, v["tag"], "solver counterexample", how))

    # ---- agreement of interpreter and machine on concrete runs
    rng = random.Random("%d %s %s" % (SEED, prop, tier))
    valid = disagree = uninterpreted = 0
    samples = []
    rh = [h for h in hs if h not in NO_RANDOM]
    per = 6 if tier == "quick" else 60
    sets = {h: random_cases(rng, h, per) for h in rh}
    procs = []
    for h in rh:
        chunks = [sets[h][i::2] for i in range(2)]
        for ci, cs in enumerate(chunks):
            sp = os.path.join(work, "tv-%s-%d" % (h, ci))
            with open(sp, "w") as f:
                f.write(script_text(cs))
            of = open(sp + ".out", "w")
            # concrete runs at the quick shapes; the thorough ones are only larger
            procs.append((h, cs, sp, subprocess.Popen([got["engine"], "conc", "--ir", got["ir"], "--script", sp], stdout=of, stderr=subprocess.DEVNULL, env=env()), of))
    dl = time.time() + (40 if tier == "quick" else 600)
    for h, cs, sp, p, of in procs:
        try:
            p.wait(max(dl - time.time(), 0.1))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        of.close()
    for h, cs, sp, p, of in procs:
        text = open(sp + ".out").read()
        lines = text.splitlines()
        if text and not text.endswith("\n"):
            lines.pop()
        rs, e = native(got["dev"], cs, "quick", 60, sp + ".n")
        for k, l in enumerate(lines):
            if k >= len(rs):
                break
            hx, _, tail = l.partition(" ")
            nhx, ntail = rs[k]
            same = (ntail == "ok" and tail == "ok" and hx == nhx) or (ntail == "assumption" and not tail.startswith("violation")) \
                or (ntail.startswith("FAIL") and tail.startswith("violation"))
            if tail.startswith("error"):
                # outside what the interpreter covers: nothing compared
                uninterpreted += 1
                continue
            if same:
                valid += 1
                if len(samples) < 3:
                    samples.append({"harness": h, "choices": cs[k][1], "bytes_compared": len(nhx) // 2, "first_output": nhx[:64], "result": ntail})
            else:
                disagree += 1
                say("disagreement: %s choices %s: interpreter %s, machine %s" % (h, cs[k][1], tail[:200], ntail))
    # more random cases, natively only: not the deciding step, but a failing
    # one is a counterexample all the same
    ran = 0
    undecided = {h: H[h]["errors"] for h in hs if H[h]["errors"]}
    for h in rh:
        cs = random_cases(rng, h, (60 if not undecided else 600))
        rs, e = native(got["dev"], cs, tier, 60, os.path.join(work, "rand"))
        ran += len(rs)
        for k, (hx, tail) in enumerate(rs):
            if tail.startswith("FAIL") and not confirmed:
                if "did not return" in tail:
                    r2, _ = native(got["dev"], [cs[k]], tier, 60, os.path.join(work, "rand1"))
                    if r2 and not r2[-1][1].startswith("FAIL"):
                        continue
                confirmed.append((cs[k], tier, tail[5:], "concrete run", ["dev: " + tail[5:]]))
                break

    # ---- evidence
    tot = lambda k: sum(H[h][k] for h in hs)
    cov = {}
    for h in hs:
        for k, v in H[h]["covers"].items():
            cov[k] = cov.get(k, 0) + v
    fns = sorted({demangle(f) for h in hs for f in H[h]["functions"]})
    xc = [r["xcheck"] for _, r in runs if r["xcheck"]["solver"]]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks") + tot("merges"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": valid,
            "samples": samples + [{"obligation": t, "harness": h, "times": n} for h in hs for t, n in list(H[h]["tags"].items())[:3]],
            "what": "symbolic execution of the crate's compiler IR: states are path ends, forks and joins of symbolic states; transitions are IR instructions executed symbolically",
            "functions_encoded": fns[:120], "functions_encoded_count": len(fns),
            "bounds": P["bounds"],
            "shapes": tot("jobs"), "paths": tot("paths"), "crate_basic_blocks_executed": tot("crate_blocks"),
            "obligations": tot("obligations"), "bytes_compared": tot("bytes_checked"),
            "queries": {"total": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown_in_intermediate_steps": tot("unknown")},
            "obligations_discharged_by": {k: sum(H[h]["proved"][k] for h in hs) for k in ("syntactic", "sweep", "query")},
            "lemmas": {k: sum(H[h]["lemmas"][k] for h in hs) for k in ("proved", "reused", "refuted")},
            "simplifications_confirmed": {k: sum(H[h]["rewrites"][k] for h in hs) for k in ("confirmed", "open")},
            "equalities_by_gf2_algebra": tot("gf2"), "branches_assumed_feasible": tot("assumed_feasible"),
            "solver": res["solver"], "solver_s": round(tot("solver_s"), 2), "cpu_s": round(tot("cpu_s"), 2),
            "slowest_query_s": max(H[h]["slowest_query_s"] for h in hs),
            "second_solver": xc, "term_nodes": tot("term_nodes"),
            "per_harness": {h: {k: H[h][k] for k in ("jobs", "paths", "obligations", "queries", "unsat", "solver_s")} for h in hs},
            "forms_run": [f for f, _ in runs], "witnesses": cov,
            "native_random_runs": ran, "interpreter_disagreements": disagree, "concrete_runs_not_interpreted": uninterpreted, "build_s": round(build_s, 1),
            "known_findings_seen": [k["id"] for k, *_ in findings],
        },
        "assumptions": [
            "rustc's LLVM IR (opt-level 0, overflow checks on) means what the machine code does; std's own code is executed from that IR as well",
            "allocation succeeds; 64-bit little-endian target",
            "shapes outside the stated bounds are not covered",
        ],
        "wall_s": round(time.time() - T0, 2), "violations": len(confirmed),
    }
    if undecided:
        ev["coverage"]["undecided"] = {h: e[:5] for h, e in undecided.items()}
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    say("%s %s: %d shapes, %d paths, %d obligations (%d bytes), %d queries (%d unsat), solver %.1f s, traces validated %d, wall %.0f s"
        % (prop, tier, tot("jobs"), tot("paths"), tot("obligations"), tot("bytes_checked"), tot("queries"), tot("unsat"), tot("solver_s"), valid, time.time() - T0))
    seen = set()
    for k, h, v, how in findings:
        if k["id"] not in seen:
            seen.add(k["id"])
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        for i, (case, vt, tag, src, how) in enumerate(confirmed[:3]):
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%d.script" % (prop, i))
            with open(rp, "w") as f:
                f.write("# property %s, claim '%s', found by: %s\n" % (prop, tag, src))
                f.write("# run: cargo run --bin replay -- <this file> %s   (in /verif/harness)\n" % ("1" if vt == "thorough" else "0"))
                for l in how:
                    f.write("# observed natively: %s\n" % l.replace("\n", " "))
                f.write(script_text([case]))
            say("  %s in %s: %s (%s)" % (tag, case[0], "; ".join(how), src))
            say("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    bad = []
    for h, v in unconfirmed:
        m = "counterexample not reproduced natively: %s '%s' (%s) choices %s" % (h, v["tag"], v["kind"], v["choices"])
        if h in EXTRAPOLATED or v["kind"] == "deep":
            say("NOTE property=%s %s" % (prop, m))
        else:
            bad.append(m)
    for h, e in undecided.items():
        say("NOTE property=%s part of the bounds left undecided: %s: %s" % (prop, h, "; ".join(e[:3])[:1500]))
    for c in P["covers"]:
        if c not in cov and undecided:
            say("NOTE property=%s not reached: %s" % (prop, c))
        elif c not in cov:
            bad.append("witness '%s' not reached" % c)
    for c in P.get("hopes", []):
        if c not in cov:
            say("NOTE property=%s not reached: %s" % (prop, c))
    if not any(H[h]["obligations"] for h in hs):
        bad.append("nothing was checked: " + "; ".join(str(e[:2]) for e in undecided.values()))
    for h in hs:
        expected = any(k["harness"] == h for k in kf)
        if not expected and H[h]["obligations"] == 0 and not H[h]["violations"] and not undecided.get(h):
            bad.append("%s checked nothing" % h)
    if not fns:
        bad.append("no function of the crate was executed")
    if any(x["disagree"] for x in xc):
        bad.append("second solver disagrees")
    if disagree:
        bad.append("interpreter and machine disagree on %d concrete runs" % disagree)
    if rh and valid == 0 and not undecided:
        bad.append("no concrete run validated")
    if bad:
        for b in bad:
            say("ERROR property=%s %s" % (prop, b[:1500]))
        return 2
    return 0


if __name__ == "__main__":
    main()
