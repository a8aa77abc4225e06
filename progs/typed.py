"""C24: generated programs that combine matrices of different scalar types, storage orders, size classes and access rights,
with a model of which combinations are supported. Combinations the documentation leaves open are not generated."""

QUICK = (2, 12000)
THOROUGH = (100, 20000)

SC = ["f32", "f64", "c32", "c64"]
DYN = "Dynamic"


def lit(sc):
    return {"f32": "2.0f32", "f64": "2.0f64", "c32": "c32::new(2.0, 1.0)", "c64": "c64::new(2.0, 1.0)"}[sc]


class V(dict):
    __getattr__ = dict.get


def owner(rng, sc=None):
    """(construction, description) of a fresh matrix."""
    sc = sc or rng.choice(SC)
    k = rng.choices(["dyn", "macro", "ut", "cv", "rv", "fix", "fixv", "view", "viewm", "ref", "refm", "slice", "slicem", "ptr", "ptrm", "vslice"],
                    [6, 2, 2, 2, 2, 4, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2])[0]
    L = rng.choice(["RowMajor", "ColumnMajor"])
    if k == "dyn":
        return "MatrixD::<%s, %s>::zeros_from_dim(3, 3)" % (sc, L), V(sc=sc, lay=L, idx=L, rs=DYN, cs=DYN, base=1, wr=1, strided=1, block=1, split=L == "RowMajor")
    if k == "macro":
        form = rng.choice(["mat", "vec"])
        if form == "mat":
            L = rng.choice(["RowMajor", "ColumnMajor", None])
            e = "mat![%s, (3, 3)%s]" % (sc, ", " + L if L else "")
            L = L or "RowMajor"
            return e, V(sc=sc, lay=L, idx=L, rs=DYN, cs=DYN, base=1, wr=1, strided=1, block=1, split=L == "RowMajor")
        L = rng.choice(["RowVector", "ColumnVector", None])
        e = "vector![%s, 3%s]" % (sc, ", " + L if L else "")
        L = L or "ColumnVector"
        return e, V(sc=sc, lay=L, idx=L, rs="Fixed1" if L == "RowVector" else DYN, cs=DYN if L == "RowVector" else "Fixed1", base=1, wr=1, strided=1)
    if k == "ut":
        return "UpperTriangularMatrix::<%s>::zeros_from_dim(3, 3)" % sc, V(sc=sc, lay="UpperTriangular", idx="UpperTriangular", rs=DYN, cs=DYN, base=1, wr=1, strided=0)
    if k == "cv":
        return "ColumnVectorD::<%s>::zeros_from_length(3)" % sc, V(sc=sc, lay="ColumnVector", idx="ColumnVector", rs=DYN, cs="Fixed1", base=1, wr=1, strided=1)
    if k == "rv":
        return "RowVectorD::<%s>::zeros_from_length(3)" % sc, V(sc=sc, lay="RowVector", idx="RowVector", rs="Fixed1", cs=DYN, base=1, wr=1, strided=1)
    if k == "fix":
        r, c = rng.choice([(2, 2), (1, 2), (3, 3), (1, 3), (2, 3), (3, 2)])
        if r > 1 and rng.random() < 0.5:
            e = "Matrix%d%d::<%s, %s>::zeros_from_dim()" % (r, c, sc, L)
        else:
            e = "GenericBaseMatrixMut::<%s, %s, ArrayContainer<%s, %d>, Fixed%d, Fixed%d>::zeros_from_dim()" % (sc, L, sc, r * c, r, c)
        return e, V(sc=sc, lay=L, idx=L, rs="Fixed%d" % r, cs="Fixed%d" % c, base=1, wr=1, strided=1)
    if k == "fixv":
        n, L = rng.choice([2, 3]), rng.choice(["RowVector", "ColumnVector"])
        r, c = (1, n) if L == "RowVector" else (n, 1)
        return ("GenericBaseMatrixMut::<%s, %s, ArrayContainer<%s, %d>, Fixed%d, Fixed%d>::zeros_from_length()" % (sc, L, sc, n, r, c),
                V(sc=sc, lay=L, idx=L, rs="Fixed%d" % r, cs="Fixed%d" % c, base=1, wr=1, strided=1))
    A = "ArbitraryStride" + L
    dyn = dict(sc=sc, idx=L, rs=DYN, cs=DYN)
    if k in ("view", "viewm"):
        m = k == "viewm"
        return ("leak(MatrixD::<%s, %s>::zeros_from_dim(4, 4)).block%s((0, 1), (3, 3))" % (sc, L, "_mut" if m else ""),
                V(dyn, lay=A, base=1, wr=m, strided=1, block=1, split=0))
    if k == "ref":
        return "Matrix::from_ref(leak(MatrixD::<%s, %s>::zeros_from_dim(3, 3)))" % (sc, L), V(dyn, lay=L, base=0, wr=0)
    if k == "refm":
        return "Matrix::new(MatrixRefMut::new(leak(MatrixD::<%s, %s>::zeros_from_dim(3, 3))))" % (sc, L), V(dyn, lay=L, base=0, wr=1)
    if k in ("slice", "slicem"):
        m = k == "slicem"
        C = "SliceContainerMut" if m else "SliceContainer"
        st = rng.random() < 0.5
        lay, new = (A, "%s::new((3, 3), (%s))" % (A, "3, 1" if L == "RowMajor" else "1, 3")) if st else (L, "%s::new((3, 3))" % L)
        return ("GenericBaseMatrix::<%s, %s, %s<%s>, Dynamic, Dynamic>::from_data(%s::new(&mut leak(vec![Default::default(); 9])[..]), %s)" % (sc, lay, C, sc, C, new),
                V(dyn, lay=lay, base=1, wr=m, strided=1, block=1, split=lay == "RowMajor"))
    if k == "vslice":
        m = rng.random() < 0.5
        C = "SliceContainerMut" if m else "SliceContainer"
        st, row = rng.random() < 0.5, rng.random() < 0.5
        I = "RowVector" if row else "ColumnVector"
        lay = "ArbitraryStride" + I if st else I
        new = "%s::new(3, 2)" % lay if st else "%s::new(3)" % lay
        rs, cs = ("Fixed1", DYN) if row else (DYN, "Fixed1")
        return ("GenericBaseMatrix::<%s, %s, %s<%s>, %s, %s>::from_data(%s::new(&mut leak(vec![Default::default(); 9])[..]), %s)" % (sc, lay, C, sc, rs, cs, C, new),
                V(sc=sc, lay=lay, idx=I, rs=rs, cs=cs, base=1, wr=m, strided=1))
    m = k == "ptrm"
    st = rng.random() < 0.5
    lay = A if st else L
    return ("unsafe { SliceMatrix%s::<%s, %s, Dynamic, Dynamic>::from_pointer(leak(vec![Default::default(); 9]).as_mut_ptr(), (3, 3)%s) }" % (
        "Mut" if m else "", sc, lay, ", (%s)" % ("3, 1" if L == "RowMajor" else "1, 3") if st else ""),
        V(dyn, lay=lay, base=1, wr=m, strided=1, block=1, split=lay == "RowMajor"))


def size(v):
    return (v.rs, v.cs)


DD, DV, VD = (DYN, DYN), (DYN, "Fixed1"), ("Fixed1", DYN)
PRODUCT = {(DD, DD): DD, (DD, DV): DV, (VD, DD): VD}
OUT = {DD: "MatrixD<%s, RowMajor>", DV: "ColumnVectorD<%s>", VD: "RowVectorD<%s>"}


class B:
    def __init__(self, rng):
        self.r, self.s, self.v = rng, [], {}

    def name(self):
        return "x%d" % len(self.v)

    def own(self, sc=None):
        e, d = owner(self.r, sc)
        x = self.name()
        self.v[x] = d
        pre = ""
        if "leak(" in e and self.r.random() < 0.6:
            # what is borrowed lives in this function instead of for ever
            i = e.index("leak(")
            j, depth = i + 5, 1
            while depth:
                depth += {"(": 1, ")": -1}.get(e[j], 0)
                j += 1
            pre = "let mut of_%s = %s; " % (x, e[i + 5:j - 1])
            if "vec![" in pre:
                pre = pre.replace("of_%s =" % x, "of_%s: Vec<%s> =" % (x, d.sc))
            e = e[:i] + "(&mut of_%s)" % x + e[j:]
        self.s.append(dict(op="own:" + d.lay, src=pre + "let mut %s = %s;" % (x, e), uses=[], defs=[x], ok=True, why=""))
        return x

    def pick(self, f=lambda v: True):
        c = [x for x, v in self.v.items() if f(v)]
        return self.r.choice(c[-4:]) if c else None

    def emit(self, op, src, uses, ok, why="", x=None, d=None):
        if x and ok:
            self.v[x] = V(d)
        if op in ("add", "scale") and ok:
            for u in uses:
                self.v[u]["lent"] = 1
        self.s.append(dict(op=op, src=src, uses=uses, defs=[x] if x else [], ok=ok, why=why))
        return True

    def step(self, want):
        """Adds a statement that is supported (want) or not; False if the draw was of the other sort."""
        r = self.r
        op = r.choice(["add", "add", "add", "scale", "scale", "write", "write", "dot", "matmul", "matmul", "slice", "for_each", "fill", "block", "split",
                       "eval", "container", "assign", "ref_mut", "user_fn", "length"])
        a = self.pick()
        if not a:
            return False
        va = self.v[a]
        if va.lent and op in ("write", "slice", "for_each", "fill", "block", "split", "ref_mut", "user_fn"):
            return False  # the borrowing rules, not the types, would decide
        if op == "add":
            b = self.pick()
            vb = self.v[b]
            why = ("scalar types %s and %s" % (va.sc, vb.sc) if va.sc != vb.sc else "index orders %s and %s" % (va.idx, vb.idx) if va.idx != vb.idx
                   else "size classes %s and %s" % (size(va), size(vb)) if size(va) != size(vb) else "")
            if (not why) != want:
                return False
            x = self.name()
            if a == b:
                b_src, a_src = "&" + b, "&" + a
            else:
                a_src, b_src = "&" + a, "&" + b
            if r.random() < 0.3:
                a_src = "%s * %s" % (lit(va.sc), a_src)
            if r.random() < 0.2:
                b_src = "%s * %s" % (b_src, lit(vb.sc)) if b_src[0] != "&" else "(%s) * %s" % (b_src, lit(vb.sc))
            return self.emit("add", "let %s = %s + %s;" % (x, a_src, b_src), [a, b], want, why, x,
                             dict(sc=va.sc, lay=va.idx, idx=va.idx, rs=va.rs, cs=va.cs, base=0, wr=0, expr=1))
        if op == "scale":
            sc = va.sc if want else r.choice([s for s in SC if s != va.sc])
            x = self.name()
            e = "%s * &%s" % (lit(sc), a) if r.random() < 0.5 else "&%s * %s" % (a, lit(sc))
            return self.emit("scale", "let %s = %s;" % (x, e), [a], want, "scalar %s for a matrix of %s" % (sc, va.sc), x, dict(va, base=0, wr=0, block=0, split=0, strided=0, expr=1, lent=0))
        if op == "write":
            if bool(va.wr) != want:
                return False
            e = r.choice(["*%s.get_mut(0, 1) = %s;", "*%s.get1d_mut(0) = %s;", "unsafe { *%s.get_unchecked_mut(0, 1) = %s; }", "unsafe { *%s.get1d_unchecked_mut(0) = %s; }"])
            return self.emit("write", e % (a, lit(va.sc)), [a], want, "%s is read-only" % a)
        if op in ("dot", "matmul"):
            b = self.pick()
            vb = self.v[b]
            bad = ""
            if op == "dot" and va.sc != "f64":
                return False
            if not va.strided or not vb.strided:
                # only packed triangular storage and expressions have no strides; expressions are left open
                if not va.base or not vb.base or va.sc != vb.sc or not ("UpperTriangular" in (va.lay, vb.lay)):
                    return False
                bad = "packed triangular storage has no strides"
            elif va.sc != vb.sc:
                bad = "scalar types %s and %s" % (va.sc, vb.sc)
            elif (size(va), size(vb)) not in PRODUCT:
                if (size(va), size(vb)) in ((DD, VD), (DV, DD)):
                    bad = "size classes %s and %s" % (size(va), size(vb))
                else:
                    return False
            if op == "dot":
                if (not bad) != want:
                    return False
                x = self.name()
                if bad:
                    return self.emit("dot", "let %s = %s.dot(&%s);" % (x, a, b), [a, b], False, bad)
                o = PRODUCT[(size(va), size(vb))]
                L = {DD: "RowMajor", DV: "ColumnVector", VD: "RowVector"}[o]
                return self.emit("dot", "let mut %s: %s = %s.dot(&%s);" % (x, OUT[o] % va.sc, a, b), [a, b], True, "", x,
                                 dict(sc=va.sc, lay=L, idx=L, rs=o[0], cs=o[1], base=1, wr=1, strided=1, block=o == DD, split=o == DD))
            c = self.pick(lambda v: v.base and v.strided and not v.lent and v is not va and v is not vb)
            if not c:
                return False
            vc = self.v[c]
            sc = va.sc
            if not bad:
                if vc.sc != va.sc:
                    bad = "scalar types %s and %s" % (va.sc, vc.sc)
                elif not vc.wr:
                    bad = "the result is read-only"
                elif size(vc) != PRODUCT[(size(va), size(vb))]:
                    if "Fixed2" in size(vc) or "Fixed3" in size(vc):
                        return False
                    bad = "result of size class %s" % (size(vc),)
                elif r.random() < 0.1:
                    sc = r.choice([s for s in SC if s != va.sc])
                    bad = "alpha and beta of %s" % sc
            if (not bad) != want:
                return False
            return self.emit("matmul", "%s::matmul(%s, &%s, &%s, %s, &mut %s);" % (sc, lit(sc), a, b, lit(sc), c), [a, b, c], want, bad)
        if op == "slice":
            if not va.base:
                return False
            m = r.random() < 0.5
            bad = m and not va.wr
            if bool(bad) == want:
                return False
            if m:
                return self.emit("slice", "let s: &mut [%s] = %s.get_slice_mut(0, 1);" % (va.sc, a), [a], want, "%s is read-only" % a)
            return self.emit("slice", "let s: &[%s] = %s.get_slice(0, 1);" % (va.sc, a), [a], want)
        if op == "for_each":
            if not va.base or bool(va.wr) != want:
                return False
            return self.emit("for_each", "%s.for_each(|v: &mut %s| *v = %s);" % (a, va.sc, lit(va.sc)), [a], want, "%s is read-only" % a)
        if op == "fill":
            if not va.base or bool(va.wr) != want:
                return False
            return self.emit("fill", "%s.fill_from_rand_standard_normal(&mut rand::thread_rng());" % a, [a], want, "%s is read-only" % a)
        if op == "block":
            if not va.block:
                return False
            m = r.random() < 0.5
            if bool(m and not va.wr) == want:
                return False
            x, L = self.name(), va.idx
            d = dict(sc=va.sc, lay="ArbitraryStride" + L, idx=L, rs=DYN, cs=DYN, base=1, wr=m, strided=1, block=1, split=0)
            T = "SliceMatrix%s<'_, %s, %s, Dynamic, Dynamic>" % ("Mut" if m else "", va.sc, d["lay"])
            # the lender must not be used again, so that only types decide: the view takes a private copy of the lender
            return self.emit("block", "let mut %s: %s = leak(%s).block%s((0, 0), (2, 2));" % (x, T, a, "_mut" if m else ""), [a], want, "%s is read-only" % a, x, d) and self.gone(a)
        if op == "split":
            if not va.split or bool(va.wr) != want:
                return False
            T = "SliceMatrixMut<'_, %s, ArbitraryStrideRowMajor, Dynamic, Dynamic>" % va.sc
            return self.emit("split", "let _: (%s, %s, %s, %s) = %s.split_in_four_mut((1, 1));" % (T, T, T, T, a), [a], want, "%s is read-only" % a)
        if op == "eval":
            if size(va) != DD:
                return False
            x = self.name()
            L = va.idx if want else r.choice([l for l in ["RowMajor", "ColumnMajor"] if l != va.idx])
            return self.emit("eval", "let mut %s: MatrixD<%s, %s> = %s.eval();" % (x, va.sc, L, a), [a], want, "the result of eval is ordered by %s" % va.idx, x,
                             dict(sc=va.sc, lay=L, idx=L, rs=DYN, cs=DYN, base=1, wr=1, strided=L != "UpperTriangular", block=L != "UpperTriangular", split=L == "RowMajor"))
        if op == "container":
            # a container of one scalar type under a matrix of another, or a shared slice for a mutable container
            if want:
                return False
            L, s2 = r.choice(["RowMajor", "ColumnMajor"]), r.choice([s for s in SC if s != va.sc])
            e = r.choice([
                "let _ = GenericBaseMatrix::<%s, %s, VectorContainer<%s>, Dynamic, Dynamic>::from_data(VectorContainer::new(9), %s::new((3, 3)));" % (va.sc, L, s2, L),
                "let _ = GenericBaseMatrix::<%s, %s, SliceContainerMut<%s>, Dynamic, Dynamic>::from_data(SliceContainerMut::new(&leak(vec![Default::default(); 9])[..] as &[%s]), %s::new((3, 3)));" % (va.sc, L, va.sc, va.sc, L),
                "let _: &mut [%s] = SliceContainer::<%s>::new(&leak(vec![Default::default(); 9])[..]).get_slice_mut(0, 1);" % (va.sc, va.sc),
            ])
            return self.emit("container", e, [], False, "container of another scalar type or access right")
        if op == "assign":
            b = self.pick()
            vb = self.v[b]
            if va.sc == vb.sc or want or not vb.wr or vb.lent or a == b:
                return False
            return self.emit("assign", "*%s.get_mut(0, 0) = %s.get(0, 0);" % (b, a), [a, b], False, "a %s where a %s belongs" % (va.sc, vb.sc))
        if op == "ref_mut":
            if bool(va.wr) != want or not va.base:
                return False
            return self.emit("ref_mut", "*Matrix::new(MatrixRefMut::new(&mut %s)).get_mut(0, 0) = %s;" % (a, lit(va.sc)), [a], want, "%s is read-only" % a)
        if op == "user_fn":
            # what a user's own generic code asks for
            m = r.random() < 0.5
            bad = m and not va.wr
            if not bad and r.random() < 0.3:
                bad = True
                sc, L, rs, cs = va.sc, va.lay, va.rs, va.cs
                k = r.randrange(3)
                if k == 0:
                    sc = r.choice([s for s in SC if s != sc])
                elif k == 1:
                    L = r.choice([l for l in ["RowMajor", "ColumnMajor", "RowVector", "UpperTriangular"] if l != L])
                else:
                    rs, cs = r.choice([(x, y) for x in (DYN, "Fixed1", "Fixed2", "Fixed3") for y in (DYN, "Fixed1", "Fixed2", "Fixed3") if (x, y) != (rs, cs)])
            else:
                sc, L, rs, cs = va.sc, va.lay, va.rs, va.cs
            if bool(bad) == want:
                return False
            return self.emit("user_fn", "takes%s::<%s, %s, %s, %s>(&%s%s);" % ("_mut" if m else "", sc, L, rs, cs, "mut " if m else "", a), [a], want,
                             "a matrix of (%s, %s, %s, %s, %s)" % (va.sc, va.lay, va.rs, va.cs, "writable" if va.wr else "read-only"))
        if op == "length":
            if va.lay in ("RowVector",) and va.base:
                return False
            if size(va) not in (DV, VD) or not want:
                return False
            return self.emit("length", "let _: usize = %s.length();" % a, [a], True)

    def gone(self, a):
        del self.v[a]
        self.v["gone%d" % len(self.s)] = V(sc="", lay="", idx="", rs="", cs="", dead=1)
        return True


def generate(rng):
    b = B(rng)
    main = rng.choice(SC)
    own = lambda: b.own(main if rng.random() < 0.8 else None)
    for _ in range(rng.randrange(2, 5)):
        own()
    b.pick = lambda f=lambda v: True, p=b.pick: p(lambda v: not v.dead and f(v))
    n, tries = len(b.s) + rng.randrange(2, 8), 0
    while len(b.s) < n and tries < 100:
        tries += 1
        if rng.random() < 0.15:
            own()
        else:
            b.step(True)
    if rng.random() < 0.5:
        tries = 0
        while tries < 200 and not b.step(False):
            tries += 1
    return b.s


def model(p):
    for i, s in enumerate(p):
        if not s["ok"]:
            return ("refused", "statement %d: %s" % (i, s["why"]))
    return ("accepted", "every combination is supported")


def render(p):
    return "\n".join("    " + s["src"] for s in p)


def labels(p, e):
    l = {"expected:" + e[0]} | {"op:" + s["op"] for s in p}
    if e[0] == "refused":
        l.add("refused at " + p[-1]["op"])
    return {"labels": l, "nontrivial": any(len(set(s["uses"])) > 1 or not s["ok"] for s in p)}


def smaller(p):
    for i in range(len(p) - 1, -1, -1):
        gone, q = set(p[i]["defs"]), []
        for j, s in enumerate(p):
            if j == i:
                continue
            if any(v in gone for v in s["uses"]):
                gone |= set(s["defs"])
                continue
            q.append(s)
        if q:
            yield q
