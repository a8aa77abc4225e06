//! C14: block-wise computation agrees with whole-matrix computation, and the algebra of products.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::mats::*;
use vh::mul::*;
use vh::scal::*;
use vh::{any_ro, any_rw, ensure, with_ty};

type P = (usize, usize);

fn spec(d: P, o: GenOpts) -> BoxedStrategy<MSpec> {
    spec_kinds(&DYN_MATS, Just(d).boxed(), o)
}
fn dim() -> BoxedStrategy<usize> {
    prop_oneof![6 => 1usize..=9, 2 => 10usize..=24, 1 => Just(1usize), 1 => prop::sample::select(vec![0usize, 31, 32, 33, 64, 65])].boxed()
}

/// Cut points of a range of length n: up to three, possibly repeated (empty pieces).
fn pieces(n: usize, cuts: &[u16]) -> Vec<(usize, usize)> {
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (n + 1)).collect();
    at.sort();
    at.insert(0, 0);
    at.push(n);
    at.windows(2).map(|w| (w[0], w[1] - w[0])).collect()
}
fn cuts() -> BoxedStrategy<Vec<u16>> {
    prop::collection::vec(any::<u16>(), 0..=3).boxed()
}

// --- products over partitions ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    ty: Ty,
    a: MSpec,
    b: MSpec,
    c: MSpec,
    cuts: [Vec<u16>; 3],
    /// order in which the pieces are done
    order: u64,
    fill: Fill,
    alpha: Fac,
    beta: Fac,
}
fn parts() -> BoxedStrategy<Part> {
    gen_parts((dim(), dim(), dim()).boxed())
}
fn parts_big() -> BoxedStrategy<Part> {
    gen_parts(dims_mul_big())
}
fn gen_parts(d: BoxedStrategy<(usize, usize, usize)>) -> BoxedStrategy<Part> {
    (ty(), d)
        .prop_flat_map(|(ty, (m, k, n))| {
            (Just(ty), (spec((m, k), INJ), spec((k, n), INJ), spec((m, n), INJ)), [cuts(), cuts(), cuts()], any::<u64>(), int_fill(), fac(), fac())
        })
        .prop_map(|(ty, (a, b, c), cuts, order, fill, alpha, beta)| Part { ty, a, b, c, cuts, order, fill, alpha, beta })
        .boxed()
}
fn same_values<T: Sc>(what: &str, x: &MSpec, xb: &[T], y: &MSpec, yb: &[T], transposed: bool) -> Res {
    for i in 0..x.rows {
        for j in 0..x.cols {
            let (v, w) = (xb[x.pos(i, j)], yb[if transposed { y.pos(j, i) } else { y.pos(i, j) }]);
            ensure!(v == w, "{what}: element ({i},{j}) is {} one way and {} the other", show(v), show(w));
        }
    }
    Ok(())
}
fn check_part(c: &Part, o: &mut Obs) -> Res {
    let n: usize = c.cuts.iter().map(|c| c.len()).sum();
    if n > 0 && c.a.n() > 0 && c.b.n() > 0 {
        o.hit()
    }
    o.label_if(c.cuts.iter().all(|c| !c.is_empty()), "cut-in-all-three-directions");
    o.label_if(n >= 6, "many-pieces");
    with_ty!(c.ty, T => part::<T>(c))
}
fn part<T: Sc>(c: &Part) -> Res {
    let (ma, mb, mc) = (Model::<T>::new(&c.a, c.fill, 0), Model::<T>::new(&c.b, c.fill, 1), Model::<T>::new(&c.c, c.fill, 2));
    let (alpha, beta): (T, T) = (c.alpha.value(), c.beta.value());
    let one = T::mk(1.0, 0.0);
    let a = AnyRo::new(&c.a, &ma.buf);
    let b = AnyRo::new(&c.b, &mb.buf);
    let (mut whole, mut by_blocks) = (mc.buf.clone(), mc.buf.clone());
    mm(alpha, &a, &b, beta, &mut AnyRw::new(&c.c, &mut whole));
    {
        let mut r = AnyRw::new(&c.c, &mut by_blocks);
        let (pm, pk, pn) = (pieces(c.a.rows, &c.cuts[0]), pieces(c.a.cols, &c.cuts[1]), pieces(c.b.cols, &c.cuts[2]));
        let mut todo: Vec<(usize, usize)> = (0..pm.len()).flat_map(|i| (0..pn.len()).map(move |j| (i, j))).collect();
        let mut h = c.order;
        while !todo.is_empty() {
            h = mix(h, 1);
            let (i, j) = todo.swap_remove(h as usize % todo.len());
            let ((i0, im), (j0, jn)) = (pm[i], pn[j]);
            for (step, (k0, kk)) in pk.iter().enumerate() {
                let ab = a.block((i0, *k0), (im, *kk));
                let bb = b.block((*k0, j0), (*kk, jn));
                mm(alpha, &ab, &bb, if step == 0 { beta } else { one }, &mut r.block((i0, j0), (im, jn)));
            }
        }
    }
    let what = format!("{c:?}: product of whole matrices against product over pieces");
    same_values(&what, &c.c, &whole, &c.c, &by_blocks, false)?;
    // and nothing else was touched
    let mut want = mc.clone();
    for i in 0..c.c.rows {
        for j in 0..c.c.cols {
            want.buf[c.c.pos(i, j)] = by_blocks[c.c.pos(i, j)];
        }
    }
    want.check_buf(&by_blocks)
}

// --- 2 x 2 quadrants ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Quad {
    ty: Ty,
    d: (usize, usize, usize),
    s: (u16, u16, u16),
    fill: Fill,
    alpha: Fac,
    beta: Fac,
}
fn quads() -> BoxedStrategy<Quad> {
    gen_quads((dim(), dim(), dim()).boxed())
}
fn quads_big() -> BoxedStrategy<Quad> {
    gen_quads(dims_mul_big())
}
fn gen_quads(d: BoxedStrategy<(usize, usize, usize)>) -> BoxedStrategy<Quad> {
    (ty(), d, any::<(u16, u16, u16)>(), int_fill(), fac(), fac())
        .prop_map(|(ty, d, s, fill, alpha, beta)| Quad { ty, d, s, fill, alpha, beta })
        .boxed()
}
fn check_quad(c: &Quad, o: &mut Obs) -> Res {
    let (m, k, n) = c.d;
    if m > 1 && k > 1 && n > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => quad::<T>(c))
}
fn quad<T: Sc>(c: &Quad) -> Res {
    let (m, k, n) = c.d;
    let (sm, sk, sn) = (c.s.0 as usize % (m + 1), c.s.1 as usize % (k + 1), c.s.2 as usize % (n + 1));
    let mk = |salt: u64, r: usize, cc: usize| {
        let mut x = MatrixD::<T, RowMajor>::zeros_from_dim(r, cc);
        for i in 0..r * cc {
            *x.get1d_mut(i) = elem(c.fill, salt, i);
        }
        x
    };
    let (mut a, mut b, mut r1, mut r2) = (mk(0, m, k), mk(1, k, n), mk(2, m, n), mk(2, m, n));
    let (alpha, beta): (T, T) = (c.alpha.value(), c.beta.value());
    T::mm(alpha, &a, &b, beta, &mut r1);
    {
        let qa = a.split_in_four_mut((sm, sk));
        let qb = b.split_in_four_mut((sk, sn));
        let mut qc = r2.split_in_four_mut((sm, sn));
        let one = T::mk(1.0, 0.0);
        T::mm(alpha, &qa.0, &qb.0, beta, &mut qc.0);
        T::mm(alpha, &qa.1, &qb.2, one, &mut qc.0);
        T::mm(alpha, &qa.0, &qb.1, beta, &mut qc.1);
        T::mm(alpha, &qa.1, &qb.3, one, &mut qc.1);
        T::mm(alpha, &qa.2, &qb.0, beta, &mut qc.2);
        T::mm(alpha, &qa.3, &qb.2, one, &mut qc.2);
        T::mm(alpha, &qa.2, &qb.1, beta, &mut qc.3);
        T::mm(alpha, &qa.3, &qb.3, one, &mut qc.3);
    }
    for i in 0..m {
        for j in 0..n {
            ensure!(r1.get(i, j) == r2.get(i, j), "{c:?}: element ({i},{j}) is {} computed whole and {} computed by quadrants", show(r1.get(i, j)), show(r2.get(i, j)));
        }
    }
    Ok(())
}

// --- transposition ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trans {
    p: Prod,
    /// which kind the transposed view of strided operands has
    flip: u8,
}
fn trans() -> BoxedStrategy<Trans> {
    (prods(prop_oneof![9 => dims_mul(), 1 => dims_mul_big()].boxed(), true), 0u8..8).prop_map(|(p, flip)| Trans { p, flip }).boxed()
}
/// The same memory read as the transposed matrix.
fn transposed(s: &MSpec, flip: bool) -> MSpec {
    use Kind::*;
    let kind = match (s.kind, flip) {
        (RM, _) => CM,
        (CM, _) => RM,
        (SRM, true) => SRM,
        (SCM, true) => SCM,
        (SRM, false) => SCM,
        (SCM, false) => SRM,
        (RVD, _) => CVD,
        (CVD, _) => RVD,
        (RV, _) => CV,
        (CV, _) => RV,
        (SRV, _) => SCV,
        (SCV, _) => SRV,
        (k, _) => panic!("{k:?}"),
    };
    let mut t = s.clone();
    t.kind = kind;
    t.rows = s.cols;
    t.cols = s.rows;
    t.sr = s.sc;
    t.sc = s.sr;
    if t.store == Store::Block {
        t.store = Store::Slice;
    }
    if s.store == Store::Block || s.store == Store::Ptr {
        t.clen = t.extent().max(t.n());
        if t.off + t.clen > t.total {
            t.store = Store::Ptr;
            t.clen = t.extent();
        }
    }
    t
}
fn check_trans(c: &Trans, o: &mut Obs) -> Res {
    let p = &c.p;
    super::base::labels(p, o);
    with_ty!(p.ty, T => {
        let m = models::<T>(p);
        let bufs = execute(p, &m);
        let f = |i: u8| c.flip >> i & 1 == 1;
        // C^T = B^T A^T
        let (mut ta, mut tb, mut tc) = (transposed(&p.a, f(0)), transposed(&p.b, f(1)), transposed(&p.c, f(2)));
        let form = match p.form { Form::MatMat => Form::MatMat, Form::MatVec => Form::VecMat, Form::VecMat => Form::MatVec };
        if form != Form::MatMat {
            // vectors stored with a matrix layout keep to the layouts compiled for the other form
            for (t, row) in [(&mut ta, form == Form::VecMat), (&mut tb, form == Form::VecMat), (&mut tc, form == Form::VecMat)] {
                if t.rows == 1 && row && matches!(t.kind, Kind::RM | Kind::SRM | Kind::SCM | Kind::CM) { t.kind = Kind::SRV }
                if t.cols == 1 && !row && matches!(t.kind, Kind::RM | Kind::SRM | Kind::SCM | Kind::CM) { t.kind = Kind::SCV }
            }
            // only the vectors: the matrix operand keeps its kind
            if form == Form::VecMat { ta = transposed(&p.a, f(0)) } else { tb = transposed(&p.b, f(1)) }
            for t in [&mut ta, &mut tb, &mut tc] {
                if matches!(t.kind, Kind::SRV | Kind::SCV) && matches!(t.store, Store::Ptr | Store::Block) { t.store = Store::Slice }
            }
        }
        let mut cb = m[2].buf.clone();
        let second: &[T] = if p.alias { &m[0].buf } else { &m[1].buf };
        run(form, p.alpha.value(), &tb, second, &ta, &m[0].buf, p.beta.value(), &tc, &mut cb);
        for (i, (x, y)) in bufs[2].iter().zip(&cb).enumerate() {
            ensure!(x == y || (x.same(*y)), "{}: position {i} of the result's memory is {} for A*B and {} for the transposed product", p.describe(), show(*x), show(*y));
        }
        Ok(())
    })
}

// --- distributivity and homogeneity ----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dist {
    ty: Ty,
    left: bool,
    a: MSpec,
    b: MSpec,
    b2: MSpec,
    c: MSpec,
    fill: Fill,
    s: Fac,
    t: Fac,
    alpha: Fac,
    beta: Fac,
}
fn dists() -> BoxedStrategy<Dist> {
    gen_dists((dim(), dim(), dim()).boxed())
}
fn dists_big() -> BoxedStrategy<Dist> {
    gen_dists(dims_mul_big())
}
fn gen_dists(d: BoxedStrategy<(usize, usize, usize)>) -> BoxedStrategy<Dist> {
    (ty(), any::<bool>(), d, any::<bool>())
        .prop_flat_map(|(ty, left, (m, k, n), colwise)| {
            let fam: &'static [Kind] = if colwise { &[Kind::CM, Kind::SCM] } else { &[Kind::RM, Kind::SRM] };
            let (x, y) = if left { ((m, k), (k, n)) } else { ((k, n), (m, k)) };
            let sum = move || spec_kinds(fam, Just(y).boxed(), ANY);
            (Just(ty), Just(left), (spec(x, ANY), sum(), sum(), spec((m, n), INJ)), int_fill(), [fac(), fac(), fac(), fac()])
        })
        .prop_map(|(ty, left, (a, b, b2, c), fill, [s, t, alpha, beta])| Dist { ty, left, a, b, b2, c, fill, s, t, alpha, beta })
        .boxed()
}
fn check_dist(c: &Dist, o: &mut Obs) -> Res {
    if c.a.n() > 0 && c.b.n() > 0 {
        o.hit()
    }
    o.label(if c.left { "A(sB+tB')" } else { "(sB+tB')A" });
    with_ty!(c.ty, T => dist::<T>(c))
}
fn dist<T: Sc>(c: &Dist) -> Res {
    let (ma, m1, m2, mc) = (Model::<T>::new(&c.a, c.fill, 0), Model::<T>::new(&c.b, c.fill, 1), Model::<T>::new(&c.b2, c.fill, 3), Model::<T>::new(&c.c, c.fill, 2));
    let (s, t): (T, T) = (c.s.value(), c.t.value());
    let (alpha, beta): (T, T) = (c.alpha.value(), c.beta.value());
    let a = AnyRo::new(&c.a, &ma.buf);
    let (b, b2) = (AnyRo::new(&c.b, &m1.buf), AnyRo::new(&c.b2, &m2.buf));
    let (mut once, mut twice) = (mc.buf.clone(), mc.buf.clone());
    macro_rules! sum {
        ($x:expr, $y:expr) => {{
            let e = (T::s_rm(s, $x) + T::rm_s($y, t)).eval();
            let mut r = AnyRw::new(&c.c, &mut once);
            if c.left {
                any_ro!(&a, a => any_rw!(&mut r, r => T::mm(alpha, a, &e, beta, r)))
            } else {
                any_ro!(&a, a => any_rw!(&mut r, r => T::mm(alpha, &e, a, beta, r)))
            }
        }};
    }
    match (&b, &b2) {
        (AnyRo::RM(x), AnyRo::RM(y)) => sum!(x, y),
        (AnyRo::RM(x), AnyRo::SRM(y)) => sum!(x, y),
        (AnyRo::SRM(x), AnyRo::RM(y)) => sum!(x, y),
        (AnyRo::SRM(x), AnyRo::SRM(y)) => sum!(x, y),
        (AnyRo::CM(x), AnyRo::CM(y)) => sum!(x, y),
        (AnyRo::CM(x), AnyRo::SCM(y)) => sum!(x, y),
        (AnyRo::SCM(x), AnyRo::CM(y)) => sum!(x, y),
        (AnyRo::SCM(x), AnyRo::SCM(y)) => sum!(x, y),
        _ => panic!(),
    }
    {
        let mut r = AnyRw::new(&c.c, &mut twice);
        let one = T::mk(1.0, 0.0);
        let (f1, f2) = (alpha.rmul(s), alpha.rmul(t));
        if c.left {
            mm(f1, &a, &b, beta, &mut r);
            mm(f2, &a, &b2, one, &mut r);
        } else {
            mm(f1, &b, &a, beta, &mut r);
            mm(f2, &b2, &a, one, &mut r);
        }
    }
    same_values(&format!("{c:?}: product with the sum against sum of the products"), &c.c, &once, &c.c, &twice, false)
}

// --- sums and scalar products by blocks --------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Piece {
    ty: Ty,
    a: MSpec,
    b: MSpec,
    cuts: [Vec<u16>; 2],
    fill: Fill,
    s: Fill,
    scale: bool,
}
fn piecewise() -> BoxedStrategy<Piece> {
    gen_piecewise(dims())
}
fn piecewise_big() -> BoxedStrategy<Piece> {
    gen_piecewise(big_dims())
}
fn gen_piecewise(d: BoxedStrategy<P>) -> BoxedStrategy<Piece> {
    (ty(), d, any::<bool>())
        .prop_flat_map(|(ty, d, colwise)| {
            let fam: &'static [Kind] = if colwise { &[Kind::CM, Kind::SCM] } else { &[Kind::RM, Kind::SRM] };
            let one = move || spec_kinds(fam, Just(d).boxed(), INJ);
            (Just(ty), one(), one(), [cuts(), cuts()], fill(), fill(), any::<bool>())
        })
        .prop_map(|(ty, a, b, cuts, fill, s, scale)| Piece { ty, a, b, cuts, fill, s, scale })
        .boxed()
}
fn check_piece(c: &Piece, o: &mut Obs) -> Res {
    if c.a.n() > 1 && c.cuts.iter().any(|c| !c.is_empty()) {
        o.hit()
    }
    o.label(if c.scale { "scalar-product" } else { "sum" });
    with_ty!(c.ty, T => piece::<T>(c))
}
fn piece<T: Sc>(c: &Piece) -> Res {
    let (ma, mb) = (Model::<T>::new(&c.a, c.fill, 0), Model::<T>::new(&c.b, c.fill, 1));
    let s: T = elem(c.s, 5, 1);
    let a = AnyRo::new(&c.a, &ma.buf);
    let b = AnyRo::new(&c.b, &mb.buf);
    fn compute<T: Sc>(c: &Piece, s: T, a: &AnyRo<T>, b: &AnyRo<T>) -> Box<dyn View<T>> {
        macro_rules! f {
            ($x:expr, $y:expr) => {
                if c.scale { Box::new((T::s_rm(s, $x) + T::s_rm(s, $y)).eval()) } else { Box::new(($x + $y).eval()) }
            };
        }
        match (a, b) {
            (AnyRo::RM(x), AnyRo::RM(y)) => f!(x, y),
            (AnyRo::RM(x), AnyRo::SRM(y)) => f!(x, y),
            (AnyRo::SRM(x), AnyRo::RM(y)) => f!(x, y),
            (AnyRo::SRM(x), AnyRo::SRM(y)) => f!(x, y),
            (AnyRo::CM(x), AnyRo::CM(y)) => f!(x, y),
            (AnyRo::CM(x), AnyRo::SCM(y)) => f!(x, y),
            (AnyRo::SCM(x), AnyRo::CM(y)) => f!(x, y),
            (AnyRo::SCM(x), AnyRo::SCM(y)) => f!(x, y),
            _ => panic!(),
        }
    }
    let whole = compute(c, s, &a, &b);
    for (i0, m) in pieces(c.a.rows, &c.cuts[0]) {
        for (j0, n) in pieces(c.a.cols, &c.cuts[1]) {
            let e = compute(c, s, &a.block((i0, j0), (m, n)), &b.block((i0, j0), (m, n)));
            ensure!(e.dim() == (m, n), "{c:?}: piece at ({i0},{j0}) evaluates to dimension {:?}, should be {:?}", e.dim(), (m, n));
            for i in 0..m {
                for j in 0..n {
                    let (v, w) = (e.rd(i, j), whole.rd(i0 + i, j0 + j));
                    ensure!(v.same(w), "{c:?}: element ({},{}) is {} computed on the piece at ({i0},{j0}) and {} computed whole", i0 + i, j0 + j, show(v), show(w));
                }
            }
        }
    }
    Ok(())
}

pub fn c14() -> Vec<Sub> {
    vec![
        sub("partitioned_products", 30_000, 500_000, parts, check_part),
        sub("quadrant_products", 24_000, 400_000, quads, check_quad),
        sub("transposed_products", 30_000, 500_000, trans, check_trans),
        sub("products_with_sums", 40_000, 600_000, dists, check_dist),
        sub("partitioned_products_large", 1_000, 8_000, parts_big, check_part),
        sub("quadrant_products_large", 600, 5_000, quads_big, check_quad),
        sub("products_with_sums_large", 600, 5_000, dists_big, check_dist),
        sub("sums_by_blocks_large", 600, 4_000, piecewise_big, check_piece),
        sub("sums_by_blocks", 30_000, 500_000, piecewise, check_piece),
    ]
}
