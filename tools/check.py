#!/usr/bin/env python3
"""Decides one property:  check.py --prop C07 [--tier quick|thorough] [--seed N]

1. extracts the functions under contract from /repo's current sources and has Verus discharge every
   obligation (tools/vx.py); a failed obligation that carries the property is a violation;
2. runs the bounded engine (tools/bounded.py) on the binaries built from /repo's current sources: it
   looks for an input which shows a failed obligation on the real code, and stands in (labelled
   bounded) for what no contract covers.
Exit 0: held; exit 1 with a VIOLATION line: broken."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx

VERIF = vx.VERIF
REPO = vx.REPO
TARGET = os.environ.get("VX_CACHE") or os.path.join(VERIF, "target")
BINS = ["git-lfs-transfer", "git-at", "git-recent-refs"]
NOBODY = 65534
TITLES = {}
for l in open(os.path.join(VERIF, "properties.jsonl")):
    if l.strip():
        d = json.loads(l)
        TITLES[d["id"]] = d["title"]

def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)

def cargo_env(tgt):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    e.setdefault("HOME", "/root")
    return e

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_bins(dest):
    """Builds the programs and the driver from /repo's current tree and copies them to dest."""
    tgt = os.path.join(TARGET, "repo")
    os.makedirs(tgt, exist_ok=True)
    env = cargo_env(tgt)
    # never trust time stamps: the workspace's own crates are always compiled anew
    for man, pk in ((os.path.join(REPO, "Cargo.toml"), ["scutiger-core", "scutiger-lfs", "scutiger-bin", "scutiger"]), (os.path.join(VERIF, "driver/Cargo.toml"), ["scutiger-core", "vdrv"])):
        t2 = dict(env, CARGO_TARGET_DIR=tgt if pk[-1] != "vdrv" else os.path.join(TARGET, "driver"))
        for p in pk:
            run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", p], env=t2)
    r = run(["cargo", "build", "--offline", "--locked", "--workspace", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env)
    if r.returncode != 0:
        r = run(["cargo", "build", "--offline", "--workspace", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env)
    if r.returncode != 0:
        return "repository does not build: " + r.stdout[-1500:]
    for b in BINS:
        shutil.copy(os.path.join(tgt, "debug", b), os.path.join(dest, b))
    r = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml")], env=dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, "driver")))
    if r.returncode != 0:
        return "driver does not build: " + r.stdout[-1500:]
    shutil.copy(os.path.join(TARGET, "driver", "debug", "vdrv"), os.path.join(dest, "vdrv"))
    for b in BINS + ["vdrv"]:
        os.chmod(os.path.join(dest, b), 0o755)
    return None

def as_nobody():
    r = subprocess.run(["setpriv", "--reuid", str(NOBODY), "--regid", str(NOBODY), "--clear-groups", "true"], stderr=subprocess.DEVNULL)
    return ["setpriv", "--reuid", str(NOBODY), "--regid", str(NOBODY), "--clear-groups"] if r.returncode == 0 else []

def make_scratch(base, i, user):
    d = os.path.join(base, "s%d" % i)
    os.makedirs(d)
    pool = os.path.join(d, "pool")
    try:
        for u in (1, 54321):
            q = os.path.join(pool, str(u))
            os.makedirs(q)
            for k in range(200):
                p = os.path.join(q, str(k))
                open(p, "w").close()
                os.chown(p, u, u)
                os.chmod(p, 0o666)
            if user:
                os.chown(q, NOBODY, NOBODY)
        if user:
            os.chown(pool, NOBODY, NOBODY)
    except OSError:
        shutil.rmtree(pool, ignore_errors=True)
    if user:
        os.chown(d, NOBODY, NOBODY)
    return d

def explore(prop, base, tier, seed, secs, procs, tag=0):
    """Several seeds of the bounded engine at once; returns the merged result."""
    user = as_nobody()
    eng = os.path.join(base, "bounded.py")
    shutil.copy(os.path.join(VERIF, "tools/bounded.py"), eng)
    os.chmod(eng, 0o644)
    ps = []
    for i in range(procs):
        d = make_scratch(base, tag * 100 + i, user)
        out = os.path.join(d, "out.json")
        cmd = user + [sys.executable, eng, "explore", "--prop", prop, "--bins", os.path.join(base, "bins"), "--scratch", d, "--seed", str(seed * 1000 + tag * 100 + i), "--tier", tier, "--secs", str(secs), "--out", out]
        ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, start_new_session=True), out))
    m = dict(evaluations=0, distinct_nontrivial=0, samples=[], violations=[], others={}, kills=0, subcases=0, errors=[], strace=None, procs=0, user="nobody" if user else "root")
    end = time.time() + secs + 90
    for p, out in ps:
        try:
            txt, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            txt, _ = p.communicate()
            m["errors"].append("bounded engine stopped by its watchdog")
            continue
        if p.returncode != 0 or not os.path.exists(out):
            m["errors"].append("bounded engine: " + txt[-600:])
            continue
        r = json.load(open(out))
        m["procs"] += 1
        for k in ("evaluations", "distinct_nontrivial", "kills", "subcases"):
            m[k] += r[k]
        m["samples"] += r["samples"][:1]
        m["violations"] += r["violations"]
        m["others"].update(r["others"])
        if r.get("strace") is not None:
            m["strace"] = r["strace"]
    return m

def replay(prop, base, payload):
    user = as_nobody()
    d = make_scratch(base, 900 + len(os.listdir(base)), user)
    pf = os.path.join(d, "payload.json")
    json.dump(payload, open(pf, "w"))
    os.chmod(pf, 0o644)
    r = run(user + [sys.executable, os.path.join(base, "bounded.py"), "replay", "--payload", pf, "--bins", os.path.join(base, "bins"), "--scratch", d], timeout=120)
    return any(prop in l.split(" ", 1)[0].split(",") for l in r.stdout.splitlines())

def trusted_base(rs):
    """Mechanical scan of the text handed to the verifier for everything taken on trust."""
    out = []
    lines = open(rs).read().splitlines()
    for i, l in enumerate(lines):
        if "external_body" in l or "assume(" in l or "admit(" in l or "assume_specification" in l or re.search(r"\baxiom\b", l):
            sig = l.replace("#[verifier::external_body]", "").strip()
            j = i
            while not sig or sig.startswith("#["):
                j += 1
                if j >= len(lines):
                    break
                sig = lines[j].strip()
            out.append(sig[:110])
    return out

def obligations(js, prop, res):
    """Counts the proof obligations that carry the property: one per clause (postcondition, loop
    invariant, loop postcondition) tagged with it, one per precondition at its definition, and one per
    function for the body's implicit obligations (no overflow, no out-of-bounds access, callee
    preconditions, termination)."""
    ob, fns = 0, []
    per = {}
    for f in js["fns"]:
        if not f["contract"]:
            continue
        per[f["fn"]] = [0, f]
    for c in js["map"]:
        if c["t"] != "clause" or c["fn"] not in per:
            continue
        if prop in c["props"] or (not c["props"] and prop in per[c["fn"]][1]["props"]):
            per[c["fn"]][0] += 1
    total, undec, trusted = 0, 0, 0
    for n, (k, f) in per.items():
        if prop == "C23":
            k += 1
        if not k:
            continue
        if prop != "C23":
            k += 1
        if f["trusted"]:
            trusted += k
            continue
        fns.append(n)
        total += k
        if n in res.undecided:
            undec += k
    return total, undec, trusted, fns

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop
    t0 = time.time()
    secs = a.secs if a.secs is not None else (40 if tier == "quick" else 400)
    base = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    os.chmod(base, 0o755)
    os.makedirs(os.path.join(base, "bins"))
    os.environ["VX_CACHE"] = TARGET
    os.makedirs(TARGET, exist_ok=True)
    rc = 2
    try:
        rc = decide(prop, tier, a.seed, secs, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, secs, base, t0):
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    box = {}
    def verify_thread():
        try:
            work = os.path.join(base, "vx")
            os.makedirs(work)
            box["r"] = vx.verify(work=work, rlimit=200 if tier == "thorough" else 60, budget=420)
            if tier == "thorough" and not box["r"].global_error:
                box["probe"] = vx.probe(box["r"])
        except Exception as e:
            box["err"] = "verification pipeline: %r" % e
    vx.build_extractor()
    th = threading.Thread(target=verify_thread)
    th.start()
    err = build_bins(os.path.join(base, "bins"))
    if err:
        print("error: " + err)
        th.join()
        return 2
    b = explore(prop, base, tier, seed, secs, 5 if tier == "quick" else 7)
    th.join()
    fcntl.flock(lock, fcntl.LOCK_UN)
    res = box.get("r")
    proof_note = None
    fails, other_fails = [], []
    if res is None or res.global_error:
        proof_note = "undecided by the verifier on this tree: " + (box.get("err") or res.global_error)
    else:
        for f in res.failures:
            if f["fn"] in res.undecided:
                continue
            (fails if prop in f["props"] else other_fails).append(f)
    for e in b["errors"]:
        log(e)
    viol = None
    if b["violations"]:
        for v in b["violations"]:
            # only what can be reproduced counts
            if replay(prop, base, v["payload"]):
                viol = v
                break
        else:
            log("not reproducible:", b["violations"][0]["what"])
    if viol is None and fails:
        # an obligation fails: look longer for an input which shows it
        log("obligation failed:", fails[0]["fn"], fails[0]["clause"][:160])
        b2 = explore(prop, base, tier, seed, 60 if tier == "quick" else 300, 8, tag=1)
        for k in ("evaluations", "distinct_nontrivial", "kills", "subcases"):
            b[k] += b2[k]
        for v in b2["violations"]:
            if replay(prop, base, v["payload"]):
                viol = v
                break
    rc = 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    if viol is not None:
        h = hashlib.sha256(json.dumps(viol["payload"], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        json.dump(dict(property=prop, what=viol["what"], payload=viol["payload"],
                       failed_obligations=[dict(fn=f["fn"], kind=f["kind"], clause=f["clause"]) for f in fails],
                       how="python3 tools/bounded.py replay --payload <this file> --bins <dir with the built programs> --scratch <empty dir>"), open(path, "w"), indent=1)
        print("violation: " + viol["what"][:1500])
        for f in fails[:5]:
            print("failed obligation: %s %s: %s" % (f["fn"], f["kind"], f["clause"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        rc, nviol = 1, 1
    elif fails:
        h = hashlib.sha256("".join(f["fn"] + f["clause"] for f in fails).encode()).hexdigest()[:12]
        path = os.path.join(rdir, "%s-%s.txt" % (prop, h))
        with open(path, "w") as o:
            for f in fails:
                o.write("failed obligation: %s (%s) in %s, lines %s\nclause: %s\n%s\n" % (f["fn"], f["kind"], f["file"], f["src"], f["clause"], f["rendered"]))
        for f in fails[:5]:
            print("failed obligation: %s %s: %s" % (f["fn"], f["kind"], f["clause"][:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.relpath(path, VERIF)))
        rc, nviol = 1, len(fails)
    # evidence
    cov = {}
    level = "proof"
    bounded = dict(evaluations=b["evaluations"], distinct_nontrivial=b["distinct_nontrivial"], samples=b["samples"][:3],
                   rule="bounded, not counted as proved: generated sessions/streams/histories run on the built programs and judged by an independent oracle; non-trivial: at least one request or packet beyond the empty stream; distinct by content")
    if b["kills"]:
        bounded["kill_or_interleaving_points"] = b["kills"]
    if b["subcases"]:
        bounded["subcases"] = b["subcases"]
    assumptions = []
    if res is not None and not res.global_error:
        total, undec, trusted, fns = obligations(res.js, prop, res)
        mine = [u for u in res.undecided if u in fns or u.split("::", 1)[-1] in fns]
        cov.update(obligations=total, discharged=max(0, total - undec - len(fails)),
                   checker_cmd="python3 tools/vx.py (verus extracted.rs --output-json; back end: Z3 as shipped with Verus)",
                   trusted_base=trusted_base(res.rs)[:400],
                   functions=fns, verus_units_verified=res.verified, verus_units_failed=res.errors, solver_ms=res.solver_ms, times_ms=res.times if isinstance(res.times, dict) else {},
                   undecided={k: v[:300] for k, v in res.undecided.items()}, other_failed_obligations=len(other_fails),
                   extraction=dict(drops=res.js.get("drops"), missing=res.js.get("missing"), rounds=res.rounds))
        if "probe" in box:
            w, vac, _ = box["probe"]
            cov["vacuity_probes"] = dict(functions=len(w), vacuous=vac)
        if total == 0 or total == undec:
            level = "exploration"
        if mine:
            proof_note = "undecided by the verifier on this tree: " + ", ".join(mine)
        if trusted:
            assumptions.append("%d clauses of functions whose contract is assumed (marked trusted) are not counted" % trusted)
    else:
        level = "exploration"
    if proof_note:
        assumptions.append(proof_note)
        print("note: " + proof_note[:600] + " (the bounded check stands in)")
    cov.update(bounded)
    assumptions += ["the specifications in proof/prelude.rs of the standard library and of dependencies (trusted_base)",
                    "the extraction (extract/) preserves meaning: its rewrites are listed in DESIGN.md",
                    "the files of other processes change only as the contracts in proof/ allow; rustc, Verus and Z3 are sound"]
    if b["errors"]:
        assumptions.append("bounded engine trouble: " + "; ".join(b["errors"])[:500])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol),
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        if b["procs"] == 0 and (res is None or res.global_error):
            print("error: neither the verifier nor the bounded engine gave an answer")
            return 2
        print("%s held (%s): %s obligations discharged of %s; bounded: %d cases" % (prop, TITLES.get(prop, ""), cov.get("discharged"), cov.get("obligations"), b["evaluations"]))
    return rc

if __name__ == "__main__":
    main()
