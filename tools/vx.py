"""Extraction + verification: extracts the functions under contract from the repository's current
sources, runs Verus, and maps every diagnostic to a function, a clause and the properties it carries."""
import json, os, re, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def cache_dir():
    d = os.environ.get("VX_CACHE")
    if not d:
        d = os.path.join(tempfile.gettempdir(), "vx-cache-%d" % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d

def build_extractor():
    tgt = os.path.join(cache_dir(), "extract-target")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "extract/Cargo.toml")], env=env)
    if r.returncode != 0:
        raise RuntimeError("extractor does not build: " + r.stderr[-2000:])
    return os.path.join(tgt, "debug", "extract")

class Result:
    pass

SPEC_ERR = ("loop must have a decreases", )

def parse_diags(text):
    out = []
    for l in text.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" and d.get("level") == "error":
                out.append(d)
    return out

OBLIG = [
    ("postcondition not satisfied", "postcondition"),
    ("precondition not satisfied", "precondition"),
    ("invariant not satisfied", "invariant"),
    ("assertion failed", "assertion"),
    ("possible arithmetic underflow/overflow", "arithmetic"),
    ("possible division by zero", "arithmetic"),
    ("possible bit shift", "arithmetic"),
    ("decreases not satisfied", "termination"),
    ("loop ensures not satisfied", "loop-ensures"),
    ("could not prove termination", "termination"),
    ("unreachable", "precondition"),
]
def kind_of(msg):
    for m, k in OBLIG:
        if m in msg:
            return k
    return None

def extract(ex, proof, outrs, outjs, external, repo):
    r = sh([ex, repo, proof, outrs, outjs, "--external", ",".join(sorted(external))])
    if r.returncode != 0:
        return None, r.stderr
    return json.load(open(outjs)), r.stderr

def run_verus(rs, modules, rlimit, threads, timeout, seed=None):
    cmd = ["verus", rs, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "8", "--rlimit", str(rlimit), "--num-threads", str(threads)]
    for m in modules or []:
        cmd += ["--verify-only-module", m]
    if seed is not None:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    t = time.time()
    try:
        r = sh(cmd, timeout=timeout, cwd=os.path.dirname(rs))
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = "", "", -9
    return out, err, rc, time.time() - t

def locate(js, line):
    """(function record, clause record) at a generated line"""
    fn = None
    for f in js["fns"]:
        if f["a"] <= line <= f["b"]:
            fn = f
    cl = None
    for m in js["map"]:
        if m["t"] == "clause" and m["a"] <= line <= m["b"]:
            cl = m
    return fn, cl

def judge(js, rs, fails):
    """Failed obligations and undecided functions from the verifier's messages."""
    failures, undecided = [], {}
    seen = set()
    for d, k in fails:
        spans = [s for s in d["spans"]]
        clause = None
        fn = None
        for s in spans:
            e = s
            while e.get("expansion"):
                e = e["expansion"]["span"]
            f, c = locate(js, e["line_start"])
            if s["is_primary"]:
                prim = (f, c, e["line_start"])
            if c is not None and clause is None:
                clause = c
        f, c, line = prim
        # the function whose obligation failed: for postconditions the function owning the
        # clause; for preconditions the caller (where the call is)
        if k == "postcondition":
            cands = [locate(js, s["line_start"])[0] for s in spans]
            fn = next((x for x in cands if x is not None), None)
            if clause:
                fn = next((x for x in js["fns"] if x["fn"] == clause["fn"]), fn)
        elif k == "precondition":
            # the call site is the span which is not inside the failing requires clause
            fn = None
            for s in spans:
                f2, c2 = locate(js, s["line_start"])
                if c2 is None or c2["kind"] != "requires":
                    if f2 is not None:
                        fn = f2
                        break
            if fn is None:
                fn = f
        else:
            fn = f
        src = linetext(rs, line)
        failure = {
            "fn": fn["fn"] if fn else "(proof library)",
            "kind": k,
            "clause": clause["text"] if clause else src,
            "clause_kind": clause["kind"] if clause else "body",
            "idx": clause["idx"] if clause else -1,
            "props": (clause["props"] if clause and clause["props"] else (fn["dprops"] or fn["props"] if fn else [])),
            "rendered": d.get("rendered") or d["message"],
            "file": fn["file"] if fn else None,
            "src": fn["src"] if fn else None,
            "callee": clause["fn"] if clause and k == "precondition" else None,
        }
        key = (failure["fn"], failure["kind"], failure["clause"], failure["idx"])
        if key in seen:
            continue
        seen.add(key)
        lemma = False
        if clause is None:
            # clauses of the prelude and of the lemmas name their properties in a trailing comment
            for s in spans:
                e = s
                while e.get("expansion"):
                    e = e["expansion"]["span"]
                n = e["line_start"]
                pre = any(m["t"] == "prelude" and m["a"] <= n <= m["b"] for m in js["map"])
                if pre or locate(js, n)[0] is None:
                    lemma = lemma or not pre
                    t = linetext(rs, n)
                    m2 = re.search(r"// \[(C[0-9, C]*)\]\s*$", t)
                    if m2:
                        failure["props"] = [x.strip() for x in m2.group(1).split(",")]
                        failure["clause"] = t
                        clause = {"props": failure["props"]}
        # inline assertions name their properties in a comment in front of the expression
        for s in d["spans"]:
            for t in s.get("text") or []:
                m3 = re.search(r"/\*\[(C[0-9, C]*)\]\*/\s*$", t["text"][:max(0, t.get("highlight_start", 1) - 1)])
                if m3 and k == "assertion":
                    failure["props"] = [x.strip() for x in m3.group(1).split(",")]
                    failure["clause"] = t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1]
        if k in ("precondition", "arithmetic") and not (clause and clause["props"]) and not lemma:
            # an implicit safety obligation
            failure["props"] = ["C23"]
            failure["safety"] = True
        if k == "rlimit":
            undecided[failure["fn"]] = "solver resource limit"
            continue
        failures.append(failure)
    return failures, undecided

def verify(repo=None, proof=None, modules=None, rlimit=30, threads=8, work=None, timeout=800, verbose=False, budget=600):
    """Returns a Result: status per function, list of failed obligations, etc."""
    repo = repo or REPO
    proof = proof or os.path.join(VERIF, "proof")
    work = work or tempfile.mkdtemp(prefix="vx-")
    ex = build_extractor()
    rs, jsf = os.path.join(work, "extracted.rs"), os.path.join(work, "extracted.json")
    external = {}
    res = Result()
    res.rounds = 0
    res.rs, res.js = rs, None
    res.failures, res.global_error, res.undecided, res.retried = [], None, {}, []
    res.solver_ms = 0
    start = time.time()
    for rnd in range(12):
        res.rounds = rnd + 1
        js, err = extract(ex, proof, rs, jsf, external, repo)
        if js is None:
            res.global_error = "extraction failed: " + err[-500:]
            return res
        res.js = js
        out, err, rc, dt = run_verus(rs, modules, rlimit, threads, max(30, min(timeout, budget - (time.time() - start))))
        if verbose:
            open(os.path.join(work, "verus.err"), "w").write(err)
        if rc == -9:
            res.global_error = "verifier timed out"
            return res
        diags = parse_diags(err)
        try:
            summary = json.loads(out[out.index("{"):]) if "{" in out else {}
        except ValueError:
            summary = {}
        vr = summary.get("verification-results", {})
        hard = []
        fails = []
        for d in diags:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            k = kind_of(msg)
            if "rlimit" in msg.lower() or "resource limit" in msg.lower():
                k = "rlimit"
            (fails if k else hard).append((d, k))
        if vr.get("encountered-vir-error") or (hard and not vr.get("verified")):
            # unsupported construct or type error: those functions leave the verifier's reach
            newext = {}
            for d, _ in hard:
                hit = None
                for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    e = sp
                    while e.get("expansion"):
                        e = e["expansion"]["span"]
                    f, c = locate(js, e["line_start"] if os.path.basename(e["file_name"]) == "extracted.rs" else sp["line_start"])
                    if f is not None:
                        hit = f
                        break
                if hit is None:
                    hit_txt = d.get("rendered") or d["message"]
                    res.global_error = "extracted file does not compile: " + hit_txt[:1500]
                elif hit["fn"] not in external:
                    newext[hit["fn"]] = (d.get("rendered") or d["message"])[:1200]
            if newext:
                external.update(newext)
                res.global_error = None
                continue
            if res.global_error is None:
                res.global_error = "verifier error: " + "; ".join((d.get("rendered") or d["message"])[:600] for d, _ in hard)
            return res
        if "panicked at" in err or not vr or (rc != 0 and not fails and not vr.get("errors")):
            res.global_error = "verifier error: exit status %s\n%s" % (rc, err[-1500:])
            return res
        # verification went through
        res.verified, res.errors = vr.get("verified", 0), vr.get("errors", 0)
        tm = summary.get("times-ms", {})
        res.solver_ms = tm.get("smt", {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
        res.times = tm
        res.failures, und = judge(js, rs, fails)
        if (res.failures or und) and time.time() - start < budget / 2:
            # A proof that does not go through may go through in another order: whatever the solver
            # accepts under another seed is proved.
            fns = {f["fn"] for f in res.failures} | set(und)
            recs = [f for f in js["fns"] if f["fn"] in fns]
            if len(recs) == len(fns):
                mods = sorted({f["fn"].split("::")[0] for f in recs})
                o2, e2, rc2, _ = run_verus(rs, mods, rlimit, threads, max(30, min(timeout, budget - (time.time() - start))), seed=2)
                k2 = [(d, "rlimit" if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() else kind_of(d["message"]))
                      for d in parse_diags(e2) if not d["message"].startswith("aborting due to")]
                if rc2 != -9 and '"verified"' in o2 and all(k for _, k in k2) and "panicked at" not in e2:
                    f2, u2 = judge(js, rs, k2)
                    bad2 = {f["fn"] for f in f2}
                    keep = []
                    for fn in sorted(fns):
                        if fn not in bad2 and fn not in u2:
                            res.errors -= 1
                            res.verified += 1
                            res.retried.append(fn)
                        elif fn in und and fn not in u2:
                            keep += [f for f in f2 if f["fn"] == fn]
                        else:
                            keep += [f for f in res.failures if f["fn"] == fn]
                    und = {fn: w for fn, w in und.items() if fn in u2}
                    res.failures = keep
        res.undecided.update(und)
        lib = [f for f in res.failures if f["fn"] == "(proof library)"]
        if lib:
            # a lemma of the proof itself, which other obligations rest on: nothing was decided
            res.global_error = "; ".join(f["rendered"][:600] for f in lib)
        if hard:
            res.global_error = "; ".join((d.get("rendered") or d["message"])[:600] for d, _ in hard)
        break
    else:
        res.global_error = "could not bring the extracted file to compile"
    for fnn, why in external.items():
        res.undecided[fnn] = "outside the verifier's reach after extraction: " + why
    for f in res.js["fns"]:
        if f["reason"]:
            res.undecided[f["fn"]] = "not extracted: " + f["reason"]
        elif f["hints"] and any(x["fn"] == f["fn"] for x in res.failures):
            res.undecided[f["fn"]] = "; ".join(f["hints"])
        elif f["uncontracted"] and any(x["fn"] == f["fn"] for x in res.failures):
            res.undecided[f["fn"]] = "calls functions without a contract: " + " ".join(f["uncontracted"])
    res.work = work
    return res

def probe(res, rlimit=30, threads=8, timeout=300):
    """Vacuity guard: asserts `false` at the start of every function under contract; each assertion has
    to fail, or the function's precondition (with the axioms in scope) is contradictory."""
    txt = open(res.rs).read()
    prs = os.path.join(os.path.dirname(res.rs), "probe.rs")
    open(prs, "w").write(txt.replace("/*@probe*/", "proof { assert(false); }"))
    want = set()
    for n, l in enumerate(txt.splitlines(), 1):
        if l.strip() == "/*@probe*/":
            f, _ = locate(res.js, n)
            want.add(f["fn"] if f else "line %d" % n)
    out, err, rc, dt = run_verus(prs, None, rlimit, threads, timeout)
    got = set()
    for d in parse_diags(err):
        if d["message"].startswith("assertion failed"):
            for s in d["spans"]:
                f, _ = locate(res.js, s["line_start"])
                if f:
                    got.add(f["fn"])
    return sorted(want), sorted(want - got), dt

def linetext(rs, n):
    try:
        return open(rs).read().splitlines()[n - 1].strip()
    except Exception:
        return ""

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default=REPO)
    ap.add_argument("--work", default="/tmp/w/vx")
    ap.add_argument("-m", action="append")
    ap.add_argument("--rlimit", type=float, default=60)
    ap.add_argument("--probe", action="store_true")
    ap.add_argument("-q", action="store_true")
    a = ap.parse_args()
    os.makedirs(a.work, exist_ok=True)
    t = time.time()
    r = verify(repo=a.repo, modules=a.m, work=a.work, verbose=True, rlimit=a.rlimit)
    if r.global_error:
        print("GLOBAL:", r.global_error)
    for f in r.failures:
        print("FAIL", f["fn"], f["kind"], f["props"], "|", f["clause"][:200])
        if not a.q:
            print(f["rendered"][:1800])
    for k, v in r.undecided.items():
        print("UNDECIDED", k, ":", v[:1500])
    if a.probe and not r.global_error:
        w, vac, dt = probe(r)
        print("probed", len(w), "vacuous", vac, "%.1fs" % dt)
    print("missing:", r.js and r.js["missing"])
    print("verified", getattr(r, "verified", None), "errors", getattr(r, "errors", None), "rounds", r.rounds, "%.1fs" % (time.time() - t))
