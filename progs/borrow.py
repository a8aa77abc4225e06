"""C23: generated straight-line programs and a loan model that says whether each must be accepted."""

QUICK = (2, 20000)
THOROUGH = (100, 20000)

# What a variable is. cls: mat, slice, ptr, lay, vec. order: index order class, only equal ones can be added.
OWN = {
    "rm": dict(order="R", base=1, block=1, split=1, dyn=1),
    "cm": dict(order="C", base=1, block=1, split=0, dyn=1),
    "ut": dict(order="ut", base=1, block=0, split=0, dyn=1),
    "cv": dict(order="cv", base=1, block=0, split=0, dyn=0),
    "rv": dict(order="rv", base=1, block=0, split=0, dyn=0),
    "f2": dict(order="f2", base=1, block=0, split=0, dyn=0),
    "rc": dict(order="R", base=1, block=1, split=1, dyn=1, nosend=1),
}


def owner(kind):
    return dict(OWN[kind], cls="mat", wr=1, drop=1)


class Builder:
    def __init__(self, rng):
        self.r, self.stmts, self.vars, self.n = rng, [], {}, 0

    def fresh(self):
        self.n += 1
        return "x%d" % self.n

    def pick(self, f):
        c = [v for v, i in self.vars.items() if f(i)]
        # recent variables and their parents are the interesting ones
        if not c:
            return None
        if self.r.random() < 0.5:
            return self.r.choice(c[-3:])
        return self.r.choice(c)

    def idx(self):
        return "%d, %d" % (self.r.randrange(2), self.r.randrange(2))

    def st(self, op, src, acc, defs=(), persist=(), inner=None, never=False):
        """acc: [(var, mode)] in evaluation order; persist: indices of acc whose loan the defined variables keep."""
        return dict(op=op, src=src, acc=[list(a) for a in acc], defs=[d for d in defs], persist=list(persist), inner=inner, never=never)

    # ---- statement makers: return (stmt, {new var: info}) or None
    def make(self):
        r = self.r
        ops = [("own", 3), ("vec", 1), ("block", 5), ("block_mut", 6), ("split", 4), ("slice", 2), ("slice_mut", 3), ("elem_mut", 3),
               ("layout", 1), ("from_ref", 2), ("ref_mut", 3), ("scal", 3), ("add", 4), ("cont", 2), ("cont_mut", 3), ("static_cont", 1),
               ("read", 6), ("write", 8), ("drop", 3), ("eval", 3), ("dot", 2), ("matmul", 5), ("for_each", 2), ("escape", 3),
               ("need_static", 1), ("need_send", 2), ("threads", 2), ("helper", 2), ("helper_mut", 2), ("badhelper", 1), ("assign", 2), ("pair", 2),
               ("whole", 2), ("con", 4), ("wrap", 3), ("raw", 1)]
        op = r.choices([o for o, _ in ops], [w for _, w in ops])[0]
        return getattr(self, "op_" + op)()

    def op_own(self):
        k = self.r.choices(list(OWN), [6, 4, 1, 1, 1, 1, 1])[0]
        x = self.fresh()
        return self.st("own", "let mut %s = %s();" % (x, k), [], [x]), {x: owner(k)}

    def op_vec(self):
        x = self.fresh()
        return self.st("vec", "let mut %s = vec![0.0f64; 16];" % x, [], [x]), {x: dict(cls="vec", wr=1, drop=1)}

    def op_block(self):
        a = self.pick(lambda i: i.get("block"))
        if not a:
            return None
        x, o = self.fresh(), self.vars[a]["order"]
        return (self.st("block", "let mut %s = %s.block((0, 0), (2, 2));" % (x, a), [(a, "r")], [x], [0]),
                {x: dict(cls="mat", order=o, base=1, block=1, dyn=1, wr=0)})

    def op_block_mut(self):
        a = self.pick(lambda i: i.get("block") and i.get("wr"))
        if not a:
            return None
        x, o = self.fresh(), self.vars[a]["order"]
        return (self.st("block_mut", "let mut %s = %s.block_mut((0, 0), (2, 2));" % (x, a), [(a, "w")], [x], [0]),
                {x: dict(cls="mat", order=o, base=1, block=1, dyn=1, wr=1)})

    def op_split(self):
        a = self.pick(lambda i: i.get("split") and i.get("wr"))
        if not a:
            return None
        xs = [self.fresh() for _ in range(4)]
        return (self.st("split", "let (mut %s, mut %s, mut %s, mut %s) = %s.split_in_four_mut((2, 2));" % (*xs, a), [(a, "w")], xs, [0]),
                {x: dict(cls="mat", order="R", base=1, block=1, dyn=1, wr=1) for x in xs})

    def op_slice(self):
        a = self.pick(lambda i: i.get("base") or i["cls"] == "con")
        if not a:
            return None
        x = self.fresh()
        return self.st("get_slice", "let mut %s = %s.get_slice(0, 2);" % (x, a), [(a, "r")], [x], [0]), {x: dict(cls="slice", wr=0)}

    def op_slice_mut(self):
        a = self.pick(lambda i: (i.get("base") or i["cls"] == "con") and i.get("wr"))
        if not a:
            return None
        x = self.fresh()
        return self.st("get_slice_mut", "let %s = %s.get_slice_mut(0, 2);" % (x, a), [(a, "w")], [x], [0]), {x: dict(cls="slice", wr=1)}

    def op_elem_mut(self):
        a = self.pick(lambda i: i["cls"] in ("mat", "con") and i.get("wr"))
        if not a:
            return None
        x = self.fresh()
        call = self.r.choice(["%%s.get_mut(%s)" % self.idx(), "%s.get1d_mut(0)", "unsafe { %%s.get_unchecked_mut(%s) }" % self.idx(), "unsafe { %s.get1d_unchecked_mut(0) }"])
        if self.vars[a].get("con", "base") != "base":
            call = "unsafe { %s.get_unchecked_mut(0) }"
        return self.st("get_mut", "let %s = %s;" % (x, call % a), [(a, "w")], [x], [0]), {x: dict(cls="ptr", wr=1)}

    def op_layout(self):
        a = self.pick(lambda i: i["cls"] == "mat" or i.get("con") == "base")
        if not a:
            return None
        x = self.fresh()
        return self.st("layout", "let %s = %s.layout();" % (x, a), [(a, "r")], [x], [0]), {x: dict(cls="lay", wr=0)}

    def view(self, a, wr):
        i = self.vars[a]
        return dict(cls="mat", order=i["order"], dyn=i.get("dyn"), wr=wr, nosend=i.get("nosend"))

    def op_from_ref(self):
        a = self.pick(lambda i: i["cls"] == "mat")
        if not a:
            return None
        x = self.fresh()
        e = self.r.choice(["Matrix::from_ref(&%s)", "Matrix::new(MatrixRef::new(&%s))"]) % a
        return self.st("from_ref", "let mut %s = %s;" % (x, e), [(a, "r")], [x], [0]), {x: self.view(a, 0)}

    def op_ref_mut(self):
        a = self.pick(lambda i: i["cls"] == "mat" and i.get("wr"))
        if not a:
            return None
        x = self.fresh()
        return (self.st("ref_mut", "let mut %s = Matrix::new(MatrixRefMut::new(&mut %s));" % (x, a), [(a, "w")], [x], [0]), {x: self.view(a, 1)})

    def operand(self, a):
        """By reference or by value."""
        return ("&%s" % a, (a, "r")) if self.r.random() < 0.75 else (a, (a, "m"))

    def op_scal(self):
        a = self.pick(lambda i: i["cls"] == "mat")
        if not a:
            return None
        t, acc = self.operand(a)
        x = self.fresh()
        e = self.r.choice(["2.0 * %s" % t, "%s * 2.0" % t if t[0] != "&" else "(%s) * 2.0" % t])
        v = self.view(a, 0)
        if acc[1] == "m":
            v["drop"] = self.vars[a].get("drop")
        return self.st("scale", "let mut %s = %s;" % (x, e), [acc], [x], [0]), {x: v}

    def two(self, f=lambda i: True):
        a = self.pick(lambda i: i["cls"] == "mat" and f(i))
        if not a:
            return None
        o = self.vars[a]["order"]
        b = self.pick(lambda i: i["cls"] == "mat" and i["order"] == o and f(i))
        return a, b

    def op_add(self):
        ab = self.two()
        if not ab:
            return None
        (ta, ca), (tb, cb) = self.operand(ab[0]), self.operand(ab[1])
        x = self.fresh()
        v = self.view(ab[0], 0)
        v["nosend"] = v["nosend"] or self.vars[ab[1]].get("nosend")
        v["drop"] = any(c[1] == "m" and self.vars[c[0]].get("drop") for c in (ca, cb))
        v["two"] = 1
        if self.r.random() < 0.3:
            ta = "2.0 * " + ta
        return self.st("add", "let mut %s = %s + %s;" % (x, ta, tb), [ca, cb], [x], [0, 1]), {x: v}

    def cont(self, a, wr):
        x = self.fresh()
        lay = self.r.choice(["RowMajor", "ColumnMajor"])
        name = "SliceContainerMut" if wr else "SliceContainer"
        i = self.vars[a]
        if i["cls"] == "vec":
            arg, mode = ("&mut %s" if wr else "&%s") % a, "w" if wr else "r"
        elif wr:
            arg, mode = a, "w"  # an implicit reborrow
        else:
            arg, mode = a, "c"
        src = "let mut %s: GenericBaseMatrix<f64, %s, %s<'_, f64>, Dynamic, Dynamic> = Matrix::from_data(%s::new(%s), %s::new((1, 2)));" % (
            x, lay, name, name, arg, lay)
        return (self.st("cont_mut" if wr else "cont", src, [(a, mode)], [x], [0]),
                {x: dict(cls="mat", order=lay[0], base=1, block=1, split=lay[0] == "R", dyn=1, wr=wr)})

    def op_cont(self):
        a = self.pick(lambda i: i["cls"] == "vec" or (i["cls"] == "slice" and not i["wr"]))
        return a and self.cont(a, 0)

    def op_cont_mut(self):
        a = self.pick(lambda i: i["cls"] == "vec" or (i["cls"] == "slice" and i["wr"]))
        return a and self.cont(a, 1)

    def op_static_cont(self):
        x = self.fresh()
        return (self.st("static_cont", "let mut %s: GenericBaseMatrix<f64, RowMajor, SliceContainer<'_, f64>, Dynamic, Dynamic> = "
                        "Matrix::from_data(SliceContainer::new(&ST[..]), RowMajor::new((4, 4)));" % x, [], [x]),
                {x: dict(cls="mat", order="R", base=1, block=1, split=1, dyn=1, wr=0)})

    def op_con(self):
        """A container or base matrix on its own."""
        x = self.fresh()
        k = self.r.choice(["vec", "arr", "base", "sl", "slm"])
        if k in ("vec", "arr", "base"):
            e = {"vec": "VectorContainer::<f64>::new(16)", "arr": "ArrayContainer::<f64, 16>::new()",
                 "base": "BaseMatrix::<f64, VectorContainer<f64>, RowMajor, Dynamic, Dynamic>::new(VectorContainer::new(16), RowMajor::new((4, 4)))"}[k]
            return self.st("con", "let mut %s = %s;" % (x, e), [], [x]), {x: dict(cls="con", con=k, wr=1)}
        wr = k == "slm"
        a = self.pick(lambda i: i["cls"] == "vec" or (i["cls"] == "slice" and i["wr"] == wr))
        if not a:
            return None
        if self.vars[a]["cls"] == "vec":
            arg, mode = ("&mut " if wr else "&") + a, "w" if wr else "r"
        else:
            arg, mode = a, "w" if wr else "c"
        return (self.st("con", "let mut %s = SliceContainer%s::<f64>::new(%s);" % (x, "Mut" if wr else "", arg), [(a, mode)], [x], [0]),
                {x: dict(cls="con", con=k, wr=wr)})

    def op_wrap(self):
        """A container moves into a matrix."""
        a = self.pick(lambda i: i["cls"] == "con")
        if not a:
            return None
        x, i, k = self.fresh(), self.vars[a], self.vars[a]["con"]
        if k == "base":
            return self.st("wrap", "let mut %s = Matrix::new(%s);" % (x, a), [(a, "m")], [x], [0]), {x: owner("rm")}
        lay = self.r.choice(["RowMajor", "ColumnMajor"])
        n = "(4, 4)" if k in ("vec", "arr") else "(1, 2)"
        C = {"vec": "VectorContainer<f64>", "arr": "ArrayContainer<f64, 16>", "sl": "SliceContainer<'_, f64>", "slm": "SliceContainerMut<'_, f64>"}[k]
        src = "let mut %s: GenericBaseMatrix<f64, %s, %s, Dynamic, Dynamic> = Matrix::from_data(%s, %s::new(%s));" % (x, lay, C, a, lay, n)
        d = dict(cls="mat", order=lay[0], base=1, block=1, split=lay[0] == "R", dyn=1, wr=i["wr"])
        if k == "vec":
            d["drop"] = 1
        return self.st("wrap", src, [(a, "m")], [x], [0]), {x: d}

    def op_raw(self):
        """A pointer borrows nothing."""
        a = self.pick(lambda i: i.get("base") or i["cls"] == "con")
        if not a:
            return None
        x, wr = self.fresh(), self.vars[a].get("wr") and self.r.random() < 0.5
        return self.st("pointer", "let %s = %s.get_pointer%s();" % (x, a, "_mut" if wr else ""), [(a, "w" if wr else "r")], [x]), {x: dict(cls="raw", wr=0)}

    def op_read(self):
        a = self.pick(lambda i: True)
        if not a:
            return None
        c = self.vars[a]["cls"]
        e = {"mat": self.r.choice(["%s.get(" + self.idx() + ")", "%s.dim()", "%s.get1d(0)", "%s.layout().stride()"]), "slice": "%s[0]", "ptr": "*%s",
             "lay": "%s.dim()", "vec": "%s[0]", "raw": "%s.is_null()",
             "con": self.r.choice(["%s.get(0, 0)", "%s.layout().dim()"] if self.vars[a].get("con") == "base" else
                                  ["%s.number_of_elements()", "unsafe { %s.get_unchecked(0) }"])}[c] % a
        return self.st("read", "sink(%s);" % e, [(a, "r")]), {}

    def op_write(self):
        a = self.pick(lambda i: i.get("wr"))
        if not a:
            return None
        c = self.vars[a]["cls"]
        e = {"mat": self.r.choice(["*%s.get_mut(" + self.idx() + ")", "*%s.get1d_mut(0)"]), "slice": "%s[0]", "ptr": "*%s", "vec": "%s[0]",
             "con": "*%s.get_mut(0, 0)" if self.vars[a].get("con") == "base" else "*unsafe { %s.get_unchecked_mut(0) }"}[c] % a
        return self.st("write", "%s = 1.0;" % e, [(a, "w")]), {}

    def op_whole(self):
        """Replace a whole owner by another value."""
        a = self.pick(lambda i: i.get("drop") and i.get("base") and not i.get("nosend"))
        if not a:
            return None
        k = {"R": "rm", "C": "cm"}.get(self.vars[a]["order"], self.vars[a]["order"])
        return self.st("whole", "%s = %s();" % (a, k), [(a, "i")]), {}

    def op_drop(self):
        a = self.pick(lambda i: i["cls"] in ("mat", "vec", "con"))
        if not a:
            return None
        return self.st("drop", "drop(%s);" % a, [(a, "m")]), {}

    def op_eval(self):
        a = self.pick(lambda i: i["cls"] == "mat" and i.get("dyn") and i["order"] in ("R", "C"))
        if not a:
            return None
        x = self.fresh()
        o = self.vars[a]["order"]
        # The result stands alone.
        return self.st("eval", "let mut %s = %s.eval();" % (x, a), [(a, "r")], [x]), {x: owner("rm" if o == "R" else "cm")}

    def op_dot(self):
        f = lambda i: i["cls"] == "mat" and i.get("dyn") and i.get("base") and i["order"] in ("R", "C")
        a, b = self.pick(f), self.pick(f)
        if not a:
            return None
        x = self.fresh()
        return self.st("dot", "let mut %s = %s.dot(&%s);" % (x, a, b), [(a, "r"), (b, "r")], [x]), {x: owner("rm")}

    def op_matmul(self):
        f = lambda i: i["cls"] == "mat" and i.get("dyn") and i.get("base") and i["order"] in ("R", "C")
        a, b, c = self.pick(f), self.pick(f), self.pick(lambda i: f(i) and i.get("wr"))
        if not c:
            return None
        return self.st("matmul", "f64::matmul(1.0, &%s, &%s, 0.0, &mut %s);" % (a, b, c), [(a, "r"), (b, "r"), (c, "w")]), {}

    def op_pair(self):
        """Two accesses inside one call."""
        a = self.pick(lambda i: i["cls"] == "mat" and i.get("wr"))
        b = self.pick(lambda i: i["cls"] == "mat" and i.get("wr"))
        if not a:
            return None
        if self.r.random() < 0.5:
            return self.st("pair", "sink((%s.get_mut(0, 0), %s.get_mut(0, 1)));" % (a, b), [(a, "w"), (b, "w")]), {}
        return self.st("pair", "sink((&%s, %s.get1d_mut(0)));" % (a, b), [(a, "r"), (b, "w")]), {}

    def op_for_each(self):
        a = self.pick(lambda i: i.get("base") and i.get("wr"))
        if not a:
            return None
        b = self.pick(lambda i: i["cls"] == "mat")
        if self.r.random() < 0.5:
            return self.st("for_each", "%s.for_each(|v| *v = 1.0);" % a, [(a, "w")]), {}
        return self.st("for_each", "%s.for_each(|v| *v = %s.get(0, 0));" % (a, b), [(a, "w"), (b, "r")]), {}

    def op_escape(self):
        """A value made from an owner of an inner scope leaves it."""
        x = self.fresh()
        k = self.r.choice(["rm", "cm"])
        e, how, info = self.r.choice([
            ("o.block((0, 0), (2, 2))", 1, dict(cls="mat", order=k[0].upper(), base=1, block=1, dyn=1, wr=0)),
            ("o.block_mut((0, 0), (2, 2))", 1, dict(cls="mat", order=k[0].upper(), base=1, block=1, dyn=1, wr=1)),
            ("o.eval()", 0, owner(k)),
            ("o.dot(&o)", 0, owner("rm")),
            ("2.0 * o", 0, dict(cls="mat", order=k[0].upper(), dyn=1, wr=0, drop=1)),
            ("2.0 * &o", 1, dict(cls="mat", order=k[0].upper(), dyn=1, wr=0)),
            ("%s() + &o" % k, 1, dict(cls="mat", order=k[0].upper(), dyn=1, wr=0, drop=1)),
            ("o.get_slice(0, 2)", 1, dict(cls="slice", wr=0)),
            ("o.get_slice_mut(0, 2)", 1, dict(cls="slice", wr=1)),
            ("o.get_mut(0, 0)", 1, dict(cls="ptr", wr=1)),
            ("Matrix::from_ref(&o)", 1, dict(cls="mat", order=k[0].upper(), dyn=1, wr=0)),
            ("Matrix::new(MatrixRefMut::new(&mut o))", 1, dict(cls="mat", order=k[0].upper(), dyn=1, wr=1)),
            ("VectorContainer::<f64>::new(4).get_slice(0, 2)", 1, dict(cls="slice", wr=0)),
            ("ArrayContainer::<f64, 4>::new().get_slice_mut(0, 2)", 1, dict(cls="slice", wr=1)),
            ("o.layout()", 1, dict(cls="lay", wr=0)),
            ("o.get_pointer()", 0, dict(cls="raw", wr=0)),
        ])
        mut = "" if info["cls"] == "slice" and info["wr"] or info["cls"] == "ptr" else "mut "
        return self.st("escape", "let %s%s = { let mut o = %s(); let r = %s; r };" % (mut, x, k, e), [], [x], [], inner=how), {x: dict(info)}

    def op_need_static(self):
        a = self.pick(lambda i: i["cls"] in ("mat", "con"))
        if not a:
            return None
        return self.st("need_static", "need_static(%s);" % a, [(a, "m")]), {}

    def op_need_send(self):
        a = self.pick(lambda i: i["cls"] in ("mat", "con"))
        if not a:
            return None
        return self.st("need_send", "%s(&%s);" % (self.r.choice(["need_send", "need_sync"]), a), [(a, "r")], never=bool(self.vars[a].get("nosend"))), {}

    def op_threads(self):
        a = self.pick(lambda i: i["cls"] == "mat" and i.get("wr") and not i.get("nosend"))
        b = self.pick(lambda i: i["cls"] == "mat" and i.get("wr") and not i.get("nosend"))
        c = self.pick(lambda i: i["cls"] == "mat" and not i.get("nosend"))
        if not a:
            return None
        return self.st("threads", "std::thread::scope(|s| { s.spawn(|| { *%s.get_mut(0, 0) = 1.0; }); s.spawn(|| { *%s.get_mut(0, 0) = %s.get(0, 0); }); });"
                       % (a, b, c), [(a, "w"), (b, "w")] + ([(c, "r")] if c != b else [])), {}

    def helper(self, wr, bad):
        kinds = [("RM", "R", lambda i: i.get("own") == "rm"), ("CM", "C", lambda i: i.get("own") == "cm")]
        a = self.pick(lambda i: i.get("block") and i.get("drop") and i.get("base") and not i.get("nosend") and (i.get("wr") or not wr))
        if not a:
            return None
        o = self.vars[a]["order"]
        T = "RM" if o == "R" else "CM"
        L = "ArbitraryStrideRowMajor" if o == "R" else "ArbitraryStrideColumnMajor"
        x = self.fresh()
        m, V, call = ("mut ", "SliceMatrixMut", "block_mut") if wr else ("", "SliceMatrix", "block")
        src_l = "'b" if bad else "'a"
        src = "let mut %s = { fn h<'a, 'b>(m: &%s %s%s) -> %s<'a, f64, %s, Dynamic, Dynamic> { m.%s((0, 0), (2, 2)) } h(&%s%s) };" % (
            x, src_l, m, T, V, L, call, m, a)
        return (self.st("helper", src, [(a, "w" if wr else "r")], [x], [] if bad else [0], never=bad),
                {x: dict(cls="mat", order=o, base=1, block=1, dyn=1, wr=wr)})

    def op_helper(self):
        return self.helper(0, False)

    def op_helper_mut(self):
        return self.helper(1, False)

    def op_badhelper(self):
        return self.helper(self.r.randrange(2), True)

    def op_assign(self):
        """A view variable is pointed at another matrix: it keeps both lenders as far as later uses go."""
        a = self.pick(lambda i: i.get("block") and i.get("wr") and i.get("base"))
        b = self.pick(lambda i: i.get("block") and i.get("wr") and i.get("base"))
        if not a or self.vars[a]["order"] != self.vars[b]["order"]:
            return None
        wr = self.r.randrange(2)
        x = self.fresh()
        c = "block_mut" if wr else "block"
        m = "w" if wr else "r"
        src = "let mut %s = if ST[0] == 0.0 { %s.%s((0, 0), (1, 1)) } else { %s.%s((0, 0), (1, 1)) };" % (x, a, c, b, c)
        st = self.st("either", src, [(a, m), (b, m)], [x], [0, 1])
        st["alt"] = True
        return st, {x: dict(cls="mat", order=self.vars[a]["order"], base=1, block=1, dyn=1, wr=wr)}

    def add(self, made):
        st, new = made
        self.stmts.append(st)
        self.vars.update(new)


def judge(stmts, dropuse=False, drops=None):
    """None if the program obeys the borrowing rules, else the reason it does not."""
    uses = {}
    for i, s in enumerate(stmts):
        for v, _ in s["acc"]:
            uses.setdefault(v, []).append(i)
    end = len(stmts)
    if dropuse:
        moved_at = {v: i for i, s in enumerate(stmts) for v, m in s["acc"] if m == "m"}
        for v in drops or ():
            if v not in moved_at:
                uses.setdefault(v, []).append(end)
    loans, moved = {}, set()  # variable -> list of (lender, mode, defined at)
    for i, s in enumerate(stmts):
        if s["never"]:
            return "statement %d can never be accepted" % i
        live = {}
        for d, ls in loans.items():
            if uses.get(d) and uses[d][-1] >= i:
                for lender, mode in ls:
                    live.setdefault(lender, set()).add((mode, d))
        temps = []
        for v, m in s["acc"]:
            if v in moved and m == "i":
                moved.discard(v)
                continue
            if v in moved:
                return "statement %d uses the moved %s" % (i, v)
            for mode, d in live.get(v, ()):
                if s.get("alt") and uses[d][-1] == i:
                    continue  # the other branch
                if m in ("w", "m", "i") or mode == "w":
                    return "statement %d touches %s, which %s still borrows" % (i, v, d)
            for v2, m2 in temps:
                if v2 == v and (m in ("w", "m") or m2 in ("w", "m")) and not s.get("alt"):
                    return "statement %d needs %s twice at once" % (i, v)
            temps.append((v, m))
        if s["op"] == "need_static" and loans.get(s["acc"][0][0]):
            return "statement %d needs a borrowing value to live for ever" % i
        for v, m in s["acc"]:
            if m == "m":
                moved.add(v)
        for x in s["defs"]:
            ls = []
            for k in s["persist"]:
                v, m = s["acc"][k]
                ls += loans.get(v, [])
                if m in ("r", "w"):
                    ls.append((v, m))
            loans[x] = ls
            if s["inner"]:
                loans[x] = ls + [("inner", "r")]
                return "%s outlives what it borrows" % x
    return None


def dropset(stmts):
    return [x for s in stmts for x in s["defs"] if s.get("dropdef")]


def model(p):
    a = judge(p)
    b = judge(p, True, dropset(p))
    if (a is None) != (b is None):
        return None
    return ("accepted", "no rule broken") if a is None else ("refused", a)


def generate(rng):
    b = Builder(rng)
    want = rng.random() < 0.5
    n = rng.randrange(3, 14)
    tries = 0
    b.add(b.op_own())
    def step(must):
        made = b.make()
        if not made:
            return False
        st, new = made
        st["dropdef"] = any(i.get("drop") and i.get("two") or (i.get("drop") and st["op"] in ("scale", "escape")) for i in new.values())
        ok = judge(b.stmts + [st]) is None
        if ok == must:
            b.add((st, new))
            return True
        return False
    while len(b.stmts) < n and tries < 200:
        tries += 1
        step(True)
    if not want:
        # one step too far
        tries = 0
        while tries < 300:
            tries += 1
            if step(False):
                break
    if model(b.stmts) is None:
        return None
    return b.stmts


def render(p):
    return "\n".join("    " + s["src"] for s in p)


def labels(p, e):
    l = {"expected:" + e[0]} | {"op:" + s["op"] for s in p}
    # a variable that something borrows is touched later
    lent, again = set(), False
    for s in p:
        if any(v in lent for v, _ in s["acc"]):
            again = True
        for k in s["persist"]:
            if s["acc"][k][1] in ("r", "w"):
                lent.add(s["acc"][k][0])
    if again:
        l.add("lender used again")
    return {"labels": l, "nontrivial": e[0] == "refused" or again}


def smaller(p):
    for i in range(len(p) - 1, -1, -1):
        gone, q = set(p[i]["defs"]), []
        for j, s in enumerate(p):
            if j == i:
                continue
            if any(v in gone for v, _ in s["acc"]):
                gone |= set(s["defs"])
                continue
            q.append(s)
        if q:
            yield q
