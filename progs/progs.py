"""Properties that are decided by whether a generated program is accepted by the compiler (C23, C24).

Programs are generated in batches, compiled against the crate built from /repo's working tree, and the compiler's
verdict on each is compared with the verdict of a model. A mismatch is shrunk by removing statements.
"""
import hashlib, json, os, random, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(ROOT, "progs")


class NoAnswer(Exception):
    pass


def build(target):
    """Builds the crate, returns the rustc arguments that make it available."""
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=HERE, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=1500)
    lib, rand = None, None
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "householder":
                lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "rand":
                rand = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if p.returncode != 0 or not lib or not rand:
        raise NoAnswer("the crate does not build:\n" + p.stderr[-4000:])
    return ["--extern", "householder=" + lib, "--extern", "rand=" + rand, "-L", "dependency=" + os.path.join(target, "debug", "deps")]


PRELUDE = """#![allow(warnings)]
use householder::*;
use householder::addition::*;
use householder::base_matrix::BaseMatrix;
use householder::matrix_ref::*;
use householder::types::*;
pub type RM = MatrixD<f64, RowMajor>;
pub type CM = MatrixD<f64, ColumnMajor>;
pub type UT = UpperTriangularMatrix<f64>;
pub type CV = ColumnVectorD<f64>;
pub type RV = RowVectorD<f64>;
pub type F2 = Matrix22<f64, RowMajor>;
pub fn rm() -> RM { RM::zeros_from_dim(4, 4) }
pub fn cm() -> CM { CM::zeros_from_dim(4, 4) }
pub fn ut() -> UT { UT::zeros_from_dim(4, 4) }
pub fn cv() -> CV { CV::zeros_from_length(4) }
pub fn rv() -> RV { RV::zeros_from_length(4) }
pub fn f2() -> F2 { F2::zeros_from_dim() }
pub fn sink<T>(_: T) {}
pub fn leak<'a, T: 'a>(x: T) -> &'a mut T { Box::leak(Box::new(x)) }
pub fn takes<T: HScalar, L: LayoutType, R: SizeIdentifier, C: SizeIdentifier>(_: &impl MatrixTrait<T, L, R, C>) {}
pub fn takes_mut<T: HScalar, L: LayoutType, R: SizeIdentifier, C: SizeIdentifier>(_: &mut impl MatrixTraitMut<T, L, R, C>) {}
pub fn need_static<T: 'static>(_: T) {}
pub fn need_send<T: Send>(_: &T) {}
pub fn need_sync<T: Sync>(_: &T) {}
pub struct RcC { d: Vec<f64>, _r: std::rc::Rc<()> }
impl DataContainer for RcC {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 { *self.d.get_unchecked(index) }
    fn get_pointer(&self) -> *const f64 { self.d.as_ptr() }
    fn number_of_elements(&self) -> usize { self.d.len() }
}
impl DataContainerMut for RcC {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut f64 { self.d.get_unchecked_mut(index) }
    fn get_pointer_mut(&mut self) -> *mut f64 { self.d.as_mut_ptr() }
}
pub fn rc() -> GenericBaseMatrix<f64, RowMajor, RcC, Dynamic, Dynamic> {
    Matrix::from_data(RcC { d: vec![0.0; 16], _r: Default::default() }, RowMajor::new((4, 4)))
}
pub static ST: [f64; 16] = [0.0; 16];
"""


def verdicts(args, bodies, tmp, name):
    """Compiles one function per body; returns for each the list of error codes (empty: accepted)."""
    res = [[] for _ in bodies]
    live = list(range(len(bodies)))
    # An error of an early phase can keep the later ones from running: go on without the functions that had any.
    while live:
        text, owner = PRELUDE, []
        line = PRELUDE.count("\n")
        for k in live:
            src = "pub fn p%d() {\n%s\n}\n" % (k, bodies[k])
            n = src.count("\n")
            owner.append((line + 1, line + n, k))
            line += n
            text += src
        f = os.path.join(tmp, name + ".rs")
        open(f, "w").write(text)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "g", "--emit=metadata",
                            "-o", os.path.join(tmp, name + ".rmeta"), "--error-format=json"] + args + [f],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        bad = set()
        for l in p.stderr.splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error" or not d.get("spans"):
                continue
            ln = ([s for s in d["spans"] if s["is_primary"]] or d["spans"])[0]["line_start"]
            for a, b, k in owner:
                if a <= ln <= b:
                    bad.add(k)
                    res[k].append(((d.get("code") or {}).get("code") or "error", d["message"]))
                    break
            else:
                raise NoAnswer("error outside the generated programs: %s" % d.get("rendered"))
        if p.returncode == 0:
            return res
        if not bad:
            raise NoAnswer("the compiler failed without saying where:\n" + p.stderr[-3000:])
        live = [k for k in live if k not in bad]
    return res


def compile_all(args, bodies, tmp, batch=200, jobs=8):
    chunks = [bodies[i:i + batch] for i in range(0, len(bodies), batch)]
    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda c: verdicts(args, c[1], tmp, "b%d" % c[0]), enumerate(chunks)))
    return [v for o in outs for v in o]


def run(prop, gen, tier, seed, target, rule, limit):
    t0 = time.time()
    args = build(target)
    t_build = time.time() - t0
    rounds, per = (gen.QUICK if tier == "quick" else gen.THOROUGH)
    seen, labels, samples, n, nontriv = set(), {}, [], 0, 0
    fail = None
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        for rnd in range(rounds):
            if time.time() - t0 > limit * 0.8:
                break
            progs = [gen.generate(random.Random("%d/%s/%d/%d" % (seed, prop, rnd, i))) for i in range(per)]
            progs = [p for p in progs if p is not None]
            exp = [gen.model(p) for p in progs]
            got = compile_all(args, [gen.render(p) for p in progs], tmp)
            for p, e, g in zip(progs, exp, got):
                n += 1
                lab = gen.labels(p, e)
                for x in lab["labels"]:
                    labels[x] = labels.get(x, 0) + 1
                for c, _ in g:
                    labels["compiler:" + c] = labels.get("compiler:" + c, 0) + 1
                if lab["nontrivial"]:
                    h = hashlib.sha256(gen.render(p).encode()).digest()[:8]
                    nontriv += 1
                    if h not in seen:
                        seen.add(h)
                        if len(samples) < 6 and rnd == 0 and len(seen) % 50 == 1:
                            samples.append({"case": gen.render(p), "expected": e[0], "because": e[1]})
                if bool(g) == (e[0] == "accepted") and fail is None:
                    fail = (p, e, g)
            if fail:
                break
        vio = []
        if fail:
            p, e, g = shrink(gen, args, tmp, *fail)
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (prop, os.getpid()))
            msg = ("the program is %s by the model (%s) but the compiler %s it" % (
                e[0], e[1], "refuses (%s)" % "; ".join("%s %s" % x for x in g) if g else "accepts"))
            json.dump({"property": prop, "case": p, "source": gen.render(p), "expected": e[0], "because": e[1], "msg": msg,
                       "rerun": "python3 %s/check.py replay %s" % (ROOT, path)}, open(path, "w"), indent=1)
            vio.append((path, msg, gen.render(p)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": n, "nontrivial": nontriv, "distinct_nontrivial": len(seen), "rule": rule, "samples": samples,
                       "classes": dict(sorted(labels.items())), "violations": [v[1] for v in vio], "build_s": round(t_build, 1)},
          "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for path, msg, src in vio:
        print("%s: %s\n%s" % (prop, msg, src))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d programs, %d distinct non-trivial, build %.0fs, total %.0fs" % (prop, tier, n, len(seen), t_build, time.time() - t0))
    return 1 if vio else 0


def shrink(gen, args, tmp, p, e, g):
    again = True
    t0 = time.time()
    while again and time.time() - t0 < 120:
        again = False
        cands = []
        for q in gen.smaller(p):
            eq = gen.model(q)
            if eq is not None and eq[0] == e[0]:
                cands.append((q, eq))
        for i in range(0, len(cands), 40):
            part = cands[i:i + 40]
            got = verdicts(args, [gen.render(q) for q, _ in part], tmp, "s")
            for (q, eq), gq in zip(part, got):
                if bool(gq) == (eq[0] == "accepted"):
                    p, e, g, again = q, eq, gq, True
                    break
            if again:
                break
    return p, e, g


def replay(r, gen, target):
    args = build(target)
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        g = verdicts(args, [gen.render(r["case"])], tmp, "r")[0]
    e = gen.model(r["case"])
    print(gen.render(r["case"]))
    print("model: %s (%s); compiler: %s" % (e[0], e[1], "refused: %s" % g if g else "accepted"))
    return 1 if bool(g) == (e[0] == "accepted") else 0
