#!/usr/bin/env python3
"""Runs the check of one property: check.py C07 [quick|thorough] | check.py replay FILE | check.py setup

Builds the property's harness twice from /repo's working tree (with and without overflow checks and debug
assertions), runs its generated cases in child processes, merges what they counted into evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
"""
import json, os, re, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("VH_TARGET", os.path.join(ROOT, "target"))
PROFILES = ["rel", "chk"]
PROGS = {"C23": "borrow", "C24": "typed"}  # decided on generated programs, see progs/
RULES = json.load(open(os.path.join(ROOT, "rules.json")))


class NoAnswer(Exception):
    pass


class Refused(Exception):
    """The crate builds, but no longer accepts types that a user may define."""


def refused_types(out):
    """The compiler's errors, if every one of them is a bound that user-defined or generic types do not meet.

    The crate itself compiled: its own errors stand in files outside the harness."""
    if "could not compile `vh`" not in out or "could not compile `householder`" in out:
        return None
    errs = [b for b in re.split(r"(?m)^(?=error)", out) if b.startswith("error")]
    errs = [e for e in errs if not re.match(r"error: (could not compile|aborting due)", e)]
    for e in errs:
        at = re.search(r"--> (\S+?):\d+", e)
        bound = e.startswith("error[E0277]") or e.startswith("error[E0599]") and "trait bounds were not satisfied" in e
        if not bound or not at or not at.group(1).startswith("src/"):
            return None
    return [re.sub(r"\s+", " ", e[:400]) for e in errs] or None


def cargo(profile, binname, jobs=8):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "-j", str(jobs)]
    cmd += ["--bin", binname] if binname else ["--bins"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    if p.returncode != 0:
        errs = refused_types(p.stdout)
        if errs:
            raise Refused("a type that a user may define is refused: " + errs[0])
        raise NoAnswer("harness does not build (%s):\n%s" % (profile, p.stdout[-6000:]))


def build(binname):
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(cargo, p, binname) for p in PROFILES]:
            f.result()


def exe(profile, prop):
    return os.path.join(TARGET, profile, prop.lower())


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    return [k for k in json.load(open(path))["known"] if k["property"] == prop]


def write_replay(prop, sub, profile, case, sig, msg, seed):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%d.json" % (prop, sub, profile, os.getpid()))
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "profile": profile, "seed": seed, "sig": sig, "msg": msg, "case": case,
                   "rerun": "python3 %s/check.py replay %s" % (ROOT, path)}, f, indent=1)
    return path


def run_replay(prop, profile, path):
    p = subprocess.run([exe(profile, prop), "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
    return p.returncode, p.stdout.strip()


def alone(prop, profile, path):
    try:
        return run_replay(prop, profile, path)[0]
    except subprocess.TimeoutExpired:
        return 1


def told(sub, rc, out, case):
    """The case as generated fails by itself (the worker died or hung while making it smaller)."""
    if rc != 1:
        return None
    j = json.loads(out.strip().splitlines()[-1])
    return {"sub": sub, "sig": j["sig"], "msg": j["msg"], "case": json.loads(case)["case"]}


def dig_crash(prop, profile, rc, state, seed, names, tmp):
    """A worker died. Find the case that kills it, confirm it alone, shrink it in child processes."""
    raw = open(state, "rb").read() if os.path.exists(state) else b""
    cands = []
    for i in range(0, len(raw) - 15, 16):
        s, idx = struct.unpack("<QQ", raw[i:i + 16])
        if s:
            cands.append((s - 1, idx))
    for s, idx in cands:
        args = ["--subindex", str(s), "--idx", str(idx), "--seed", str(seed), "--profile", profile]
        c = subprocess.run([exe(profile, prop), "case"] + args, stdout=subprocess.PIPE, text=True, timeout=60)
        f = os.path.join(tmp, "cand.json")
        open(f, "w").write(c.stdout)
        try:
            r, o = run_replay(prop, profile, f)
        except subprocess.TimeoutExpired:
            continue
        if r == 1:
            t = told(names[s], r, o, c.stdout)
            if t["sig"] not in [k["signature"] for k in load_known(prop)]:
                return t
        if r < 0:
            msg = "the process died with signal %d (memory fault)" % -r
            case = json.loads(c.stdout)["case"]
            try:
                sh = subprocess.run([exe(profile, prop), "shrink-crash"] + args + ["--tmp", os.path.join(tmp, "shrink.json")],
                                    stdout=subprocess.PIPE, text=True, timeout=120)
                j = json.loads(sh.stdout)
                case, msg = j["case"], j["msg"]
            except Exception:
                pass
            return {"sub": names[s], "sig": "crash", "msg": msg, "case": case}
    return None


HANG = float(os.environ.get("VH_HANG", "100"))  # seconds a case (normally: milliseconds) may stay the current one of a thread


def current(state):
    raw = open(state, "rb").read() if os.path.exists(state) else b""
    return [struct.unpack("<QQ", raw[i:i + 16]) for i in range(0, len(raw) - 15, 16)]


def watch(p, state, deadline):
    """Wait for a worker. Returns the case that a thread has not come back from for HANG seconds, if there is one."""
    since = {}
    while True:
        try:
            _, err = p.communicate(timeout=2)
            return err, None
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        for t, c in enumerate(current(state)):
            if since.get(t, (None, 0))[0] != c:
                since[t] = (c, now)
            elif c[0] and now - since[t][1] > HANG:
                return "", (c[0] - 1, c[1])
        if now > deadline:
            return "", ()


def dig_hang(prop, profile, stuck, seed, names, tmp):
    """A thread of a worker does not come back from a case. Does the case alone come back?"""
    s, idx = stuck
    c = subprocess.run([exe(profile, prop), "case", "--subindex", str(s), "--idx", str(idx), "--seed", str(seed), "--profile", profile],
                       stdout=subprocess.PIPE, text=True, timeout=60)
    f = os.path.join(tmp, "cand.json")
    open(f, "w").write(c.stdout)
    try:
        r = subprocess.run([exe(profile, prop), "replay", "--file", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=HANG)
        return told(names[s], r.returncode, r.stdout, c.stdout)
    except subprocess.TimeoutExpired:
        return {"sub": names[s], "sig": "hang", "msg": "the case does not come to an end (%d s)" % HANG, "case": json.loads(c.stdout)["case"]}


def crashed(f):
    return [{"sub": f["sub"], "evaluations": 1, "nontrivial": 1, "distinct": 1, "labels": {}, "known": {},
             "failure": dict(f, idx=-1), "samples": [f["case"]], "wall_s": 0}], {b"crash"}


def work(prop, profile, tier, seed, known, tmp, deadline, threads):
    out, state, hashes, kn = (os.path.join(tmp, profile + x) for x in (".out", ".state", ".hashes", ".known"))
    json.dump([k["signature"] for k in known], open(kn, "w"))
    cmd = [exe(profile, prop), "work", "--tier", tier, "--seed", str(seed), "--profile", profile, "--threads", str(threads),
           "--state", state, "--known", kn, "--hashes", hashes, "--out", out]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    names = [l.split()[1] for l in subprocess.run([exe(profile, prop), "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    err, stuck = watch(p, state, deadline)
    if stuck is not None:
        p.kill()
        p.communicate()
        f = dig_hang(prop, profile, stuck, seed, names, tmp) if stuck else None
        if f:
            return crashed(f)
        raise NoAnswer("%s %s: time ran out" % (prop, profile))
    if p.returncode == 0:
        h = open(hashes, "rb").read()
        return json.load(open(out)), {h[i:i + 8] for i in range(0, len(h), 8)}
    if p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
        raise NoAnswer("%s %s: worker was ended (%d)" % (prop, profile, p.returncode))
    if p.returncode < 0:
        f = dig_crash(prop, profile, p.returncode, state, seed, names, tmp)
        if f:
            return crashed(f)
        # no single case dies on its own: the damage builds up over several. Does the same series die or fail again?
        for _ in range(3):
            try:
                again = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(10, deadline - time.time())).returncode
            except subprocess.TimeoutExpired:
                break
            if again == 0:
                res = json.load(open(out))
                if any(r["failure"] for r in res):
                    h = open(hashes, "rb").read()
                    return res, {h[i:i + 8] for i in range(0, len(h), 8)}
            if again < 0 and again not in (-signal.SIGKILL, -signal.SIGTERM):
                return crashed({"sub": "series", "sig": "crash", "case": {"series": {"tier": tier, "seed": seed, "threads": threads}},
                                "msg": "the process died with signal %d (memory fault) while running the series of cases, twice; %s" % (
                                    -p.returncode, err.strip()[-300:])})
    raise NoAnswer("%s %s: worker ended with %d and no case reproduces it\n%s" % (prop, profile, p.returncode, err[-3000:]))


def trim(v, n=40):
    """Shorten long lists in a sample, saying so."""
    if isinstance(v, list):
        r = [trim(x, n) for x in v[:n]]
        return r + ["... %d more" % (len(v) - n)] if len(v) > n else r
    if isinstance(v, dict):
        return {k: trim(x, n) for k, x in v.items()}
    return v


def progs_of(prop):
    sys.path.insert(0, os.path.join(ROOT, "progs"))
    import importlib, progs
    return progs, importlib.import_module(PROGS[prop])


def check_progs(prop, tier):
    progs, gen = progs_of(prop)
    limit = float(os.environ.get("VH_LIMIT", "870" if tier == "quick" else "14000"))
    try:
        return progs.run(prop, gen, tier, int(os.environ.get("VERIF_SEED", "1")), os.path.join(TARGET, "progs"), RULES[prop], limit)
    except progs.NoAnswer as e:
        raise NoAnswer(e)


def check(prop, tier):
    if prop in PROGS:
        return check_progs(prop, tier)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = float(os.environ.get("VH_LIMIT", "870" if tier == "quick" else "14000"))
    known = load_known(prop)
    try:
        build(prop.lower())
    except Refused as e:
        if prop not in ("C28", "C29"):
            raise NoAnswer(e)
        path = write_replay(prop, "builds", "rel", {"builds": prop.lower()}, "refused", str(e), seed)
        print("%s/builds: %s" % (prop, e))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    t_build = time.time() - t0
    violations, findings, subs, profs, hashes = [], {}, [], {}, set()
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        for profile in PROFILES:
            res, h = work(prop, profile, tier, seed, known, tmp, t0 + limit, 8)
            hashes |= h
            profs[profile] = {"evaluations": sum(r["evaluations"] for r in res)}
            for r in res:
                for sig, n in r["known"].items():
                    findings[sig] = findings.get(sig, 0) + n
                f = r["failure"]
                if f:
                    path = write_replay(prop, f["sub"], profile, f["case"], f["sig"], f["msg"], seed)
                    if f["idx"] >= 0 and alone(prop, profile, path) == 0:
                        # what ran before it matters: the replay is the whole series
                        path = write_replay(prop, f["sub"], profile, {"series": {"tier": tier, "seed": seed, "threads": 8}, "seen_at": f["case"]}, f["sig"], f["msg"], seed)
                    violations.append((path, f, profile))
                subs.append({"sub": r["sub"], "profile": profile, "evaluations": r["evaluations"], "nontrivial": r["nontrivial"],
                             "distinct_nontrivial": r["distinct"], "classes": r["labels"], "wall_s": round(r["wall_s"], 2),
                             "samples": trim(r["samples"]) if profile == "rel" else []})
            if violations:
                break
    samples = [{"sub": s["sub"], "case": c} for s in subs for c in s.pop("samples")]
    while len(json.dumps(samples)) > 30000 and len(samples) > 1:
        samples.pop()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs),
            "distinct_nontrivial": len(hashes),
            "rule": RULES[prop],
            "samples": samples,
            "sub_checks": subs,
            "profiles": {"rel": "no overflow checks, no debug assertions", "chk": "overflow checks and debug assertions"},
            "known_findings_hit": findings,
            "violations": [{"sub": f["sub"], "profile": p, "sig": f["sig"], "msg": f["msg"]} for _, f, p in violations],
            "build_s": round(t_build, 1),
        },
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if findings.get(k["signature"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for path, f, p in violations:
        print("%s/%s (%s): %s" % (prop, f["sub"], p, f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" % (
        prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t_build, time.time() - t0))
    return 1 if violations else 0


def replay(path):
    r = json.load(open(path))
    if r["property"] in PROGS:
        progs, gen = progs_of(r["property"])
        try:
            rc = progs.replay(r, gen, os.path.join(TARGET, "progs"))
        except progs.NoAnswer as e:
            raise NoAnswer(e)
        if rc:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return rc
    try:
        build(r["property"].lower())
    except Refused as e:
        if r["sub"] != "builds":
            raise NoAnswer(e)
        print(e)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if r["sub"] == "builds":
        return 0
    if isinstance(r["case"], dict) and "series" in r["case"]:
        s = r["case"]["series"]
        with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
            res, _ = work(r["property"], r["profile"], s["tier"], s["seed"], load_known(r["property"]), tmp, time.time() + 800, s["threads"])
        bad = [x["failure"]["msg"] for x in res if x["failure"]]
        for m in bad:
            print(m)
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if bad else 0
    try:
        rc, out = run_replay(r["property"], r.get("profile", "rel"), path)
    except subprocess.TimeoutExpired:
        rc, out = 1, "the case does not come to an end (300 s)"
    print(out if rc >= 0 else "the process died with signal %d" % -rc)
    if rc == 0:
        return 0
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main():
    a = sys.argv[1:]
    try:
        if a == ["setup"]:
            try:
                build(None)
            except Refused as e:
                print(e)
            progs_of("C23")[0].build(os.path.join(TARGET, "progs"))
            return 0
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if len(a) in (1, 2) and re.fullmatch(r"C\d\d", a[0]):
            return check(a[0], a[1] if len(a) == 2 else os.environ.get("VERIF_TIER", "quick"))
        print(__doc__)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e, file=sys.stderr)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: %s" % e, file=sys.stderr)
    return 2


sys.exit(main())
