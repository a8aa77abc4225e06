//! C05: a block is an exact window onto its parent.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

type P = (usize, usize);

/// A rectangle, relative to the dimension of the matrix it is taken of.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Rect {
    t: u32,
    l: u32,
    h: u32,
    w: u32,
}
impl Rect {
    fn at(&self, d: P) -> (P, P) {
        let t = self.t as usize % (d.0 + 1);
        let l = self.l as usize % (d.1 + 1);
        // h and w are what is cut off at the far ends
        ((t, l), (d.0 - t - self.h as usize % (d.0 - t + 1), d.1 - l - self.w as usize % (d.1 - l + 1)))
    }
}
/// Prefers large parts, so that nested chains do not become empty at once.
fn rect() -> BoxedStrategy<Rect> {
    let cut = || prop_oneof![8 => 0u32..=2, 1 => 0u32..=6, 1 => any::<u32>()];
    (cut(), cut(), cut(), cut()).prop_map(|(t, l, h, w)| Rect { t, l, h, w }).boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum W {
    Pair,
    Linear,
    PairUnchecked,
    LinearUnchecked,
    Ptr,
    Slice,
    ForEach,
    Ref,
    Random,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    /// how deep in the chain the write happens
    depth: u8,
    w: W,
    pick: u32,
    val: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
    vals: Fill,
    chain: Vec<Rect>,
    ops: Vec<Op>,
}

fn gen(d: BoxedStrategy<P>) -> BoxedStrategy<Case> {
    let w = prop::sample::select(vec![W::Pair, W::Pair, W::Linear, W::Linear, W::PairUnchecked, W::LinearUnchecked, W::Ptr, W::Slice, W::ForEach, W::Ref, W::Random]);
    let op = (0u8..=4, w, any::<u32>(), any::<u32>()).prop_map(|(depth, w, pick, val)| Op { depth, w, pick, val });
    (ty(), spec_kinds(&DYN_MATS, d, INJ), fill(), fill(), prop::collection::vec(rect(), 1..=4), prop::collection::vec(op, 0..=6))
        .prop_map(|(ty, spec, fill, vals, chain, ops)| Case { ty, spec, fill, vals, chain, ops })
        .boxed()
}
fn cases() -> BoxedStrategy<Case> {
    gen(prop_oneof![3 => (2usize..=14, 2usize..=14), 1 => dims()].boxed())
}
fn big_cases() -> BoxedStrategy<Case> {
    gen(big_dims())
}
fn huge_cases() -> BoxedStrategy<Case> {
    gen(huge_dims())
}

fn block_shape(s: &MSpec, d: P) -> Shape {
    Shape { order: s.order(), rows: d.0, cols: d.1 }
}

fn check(c: &Case, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    // walk the chain once for the labels
    let mut d = (c.spec.rows, c.spec.cols);
    let mut proper = false;
    for (i, r) in c.chain.iter().enumerate() {
        let (tl, nd) = r.at(d);
        proper |= nd != d && nd.0 * nd.1 > 0;
        o.label_if(i > 0 && nd.0 * nd.1 > 0, "nested");
        o.label_if(nd.0 * nd.1 == 0, "empty-block");
        o.label_if(tl.0 + nd.0 == d.0 && tl.1 + nd.1 == d.1 && nd.0 * nd.1 > 0 && tl != (0, 0), "lower-right-corner");
        d = nd;
    }
    if proper {
        o.hit()
    }
    o.label_if(!c.ops.is_empty(), "written");
    with_ty!(c.ty, T => run::<T>(c))
}

fn run<T: Sc>(c: &Case) -> Res {
    let mut model = Model::<T>::new(&c.spec, c.fill, 0);
    let mut buf = model.buf.clone();
    let mut res = Ok(());
    with_blk::<T>(&c.spec, &mut buf, &mut |m| {
        let base = m.ptr();
        let d = (c.spec.rows, c.spec.cols);
        res = reads(c, &model, m, base, 0, (0, 0), d).and_then(|()| writes(c, &mut model, m, 0, (0, 0), d)).and_then(|()| model.check_view(m, false))
    });
    res?;
    model.check_buf(&buf)
}

/// Read-only blocks down the chain.
fn reads<T: Sc>(c: &Case, model: &Model<T>, m: &dyn Blk<T>, base: *const T, depth: usize, o: P, d: P) -> Res {
    if depth > 0 {
        view(c, model, m, base, depth, o, d, "block")?;
    }
    let Some(r) = c.chain.get(depth) else {
        return compute(c, model, m, o, d);
    };
    let (tl, nd) = r.at(d);
    let mut res = Ok(());
    let mut called = false;
    m.blk(tl, nd, &mut |b| {
        called = true;
        res = reads(c, model, b, base, depth + 1, (o.0 + tl.0, o.1 + tl.1), nd)
    });
    ensure!(called, "block closure not called");
    res
}

fn view<T: Sc>(c: &Case, model: &Model<T>, m: &dyn Held<T>, base: *const T, depth: usize, o: P, d: P, kind: &str) -> Res {
    let s = &c.spec;
    let what = format!("{} of {}: depth {depth}, {}x{} at {:?}", kind, s.describe(), d.0, d.1, o);
    check_view(m, block_shape(s, d), &what, d.0 * d.1 <= 400, &|i, j| model.at(o.0 + i, o.1 + j))?;
    let st = m.stride();
    ensure!(st == (s.sr, s.sc), "{what}: stride {st:?} instead of {:?}", (s.sr, s.sc));
    if d.0 * d.1 > 0 {
        let got = (m.ptr() as usize).wrapping_sub(base as usize) / std::mem::size_of::<T>();
        ensure!(got == s.raw(o.0, o.1), "{what}: first element at item {got} of the parent, should be {}", s.raw(o.0, o.1));
        for (i, j) in [(0, 0), (d.0 - 1, d.1 - 1), (d.0 / 2, d.1 / 2)] {
            let p = s.sr * i + s.sc * j;
            ensure!(m.slice(p, p + 1)[0].same(model.at(o.0 + i, o.1 + j)), "{what}: raw slice item {p} is not element ({i},{j})");
        }
    }
    Ok(())
}

/// Scalar products, sums and evaluation of the innermost block.
fn compute<T: Sc>(c: &Case, model: &Model<T>, m: &dyn Blk<T>, o: P, d: P) -> Res {
    let sh = block_shape(&c.spec, d);
    let what = |op: &str| format!("{op} of the {}x{} block at {:?} of {}", d.0, d.1, o, c.spec.describe());
    let at = |i: usize, j: usize| model.at(o.0 + i, o.1 + j);
    let k: T = elem(c.vals, 5, 1);
    let pick = c.chain[0].t as usize + c.ops.len();
    check_view(&*m.eval(), sh, &what("eval"), false, &at)?;
    match pick % 3 {
        0 => check_view(&*m.eval_wrapped(1 + pick % 2), sh, &what("eval of a reference"), false, &at),
        1 => check_view(&*m.eval_scaled(k, pick), sh, &what("scalar product"), false, &|i, j| k.rmul(at(i, j))),
        _ => check_view(&*m.eval_doubled(pick), sh, &what("sum"), false, &|i, j| at(i, j).radd(at(i, j))),
    }
}
/// Mutable blocks down the chain; every level writes its share.
fn writes<T: Sc>(c: &Case, model: &mut Model<T>, m: &mut dyn BlkMut<T>, depth: usize, o: P, d: P) -> Res {
    let s = &c.spec;
    let n = d.0 * d.1;
    let sh = block_shape(s, d);
    for op in c.ops.iter().filter(|op| op.depth as usize % (c.chain.len() + 1) == depth) {
        if n == 0 {
            m.for_each(&mut |_| panic!("closure called on an empty block"));
            continue;
        }
        let i = op.pick as usize % n;
        let (r, k) = sh.at(i);
        let v: T = elem(c.vals, 3, op.val as usize);
        let p = s.sr * r + s.sc * k;
        match op.w {
            W::Pair => *m.at_mut(r, k) = v,
            W::Linear => *m.at1_mut(i) = v,
            W::PairUnchecked => unsafe { *m.atu_mut(r, k) = v },
            W::LinearUnchecked => unsafe { *m.atu1_mut(i) = v },
            W::Ptr => unsafe { *m.ptr_mut().add(p) = v },
            W::Slice => m.slice_mut(p, p + 1)[0] = v,
            W::Ref => m.wrap_mut(1 + op.val as usize % 2, &mut |x| *x.at_mut(r, k) = v),
            W::ForEach => {
                let mut j = 0;
                m.for_each(&mut |x| {
                    *x = elem(c.vals, 3, (op.val as usize).wrapping_add(j));
                    j += 1
                });
                ensure!(j == n, "for_each on a {}x{} block visited {j} elements", d.0, d.1);
                for j in 0..n {
                    let (r, k) = sh.at(j);
                    model.set(o.0 + r, o.1 + k, elem(c.vals, 3, (op.val as usize).wrapping_add(j)));
                }
            }
            W::Random => {
                use rand::SeedableRng;
                m.fill(&mut rand::rngs::StdRng::seed_from_u64(op.val as u64));
                let mut g = rand::rngs::StdRng::seed_from_u64(op.val as u64);
                for j in 0..n {
                    let (r, k) = sh.at(j);
                    model.set(o.0 + r, o.1 + k, T::draw(&mut g));
                }
            }
        }
        if !matches!(op.w, W::ForEach | W::Random) {
            model.set(o.0 + r, o.1 + k, v);
        }
        let (g, w) = (m.rd(r, k), model.at(o.0 + r, o.1 + k));
        ensure!(g.same(w), "after {:?} of ({r},{k}) of a {}x{} block at {:?} of {}: reads {} instead of {}", op.w, d.0, d.1, o, s.describe(), show(g), show(w));
    }
    if let Some(rc) = c.chain.get(depth) {
        let (tl, nd) = rc.at(d);
        let mut res = Ok(());
        let base = m.ptr() as usize;
        let no = (o.0 + tl.0, o.1 + tl.1);
        let fake = (base - s.raw(o.0, o.1).min(if n > 0 { usize::MAX } else { 0 }) * std::mem::size_of::<T>()) as *const T;
        m.blk_mut(tl, nd, &mut |b| {
            res = (|| {
                if n > 0 {
                    view(c, model, b, fake, depth + 1, no, nd, "mutable block")?;
                }
                writes(c, model, b, depth + 1, no, nd)
            })()
        });
        res?;
        // the parent shows what the block wrote
        let what = format!("{}x{} at {:?} of {} after writes to a block of it", d.0, d.1, o, s.describe());
        check_view(m, sh, &what, false, &|i, j| model.at(o.0 + i, o.1 + j))?;
    }
    Ok(())
}

// --- refusal ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// reaches past the end by this
    Long(u8),
    /// starts past the end by this (with an extent of k)
    Start(u8, u8),
    /// start + extent wraps around to something inside
    Wrap(u32, u8),
    /// huge extent
    Huge(u8),
}
impl Bad {
    /// (start, extent) for a dimension of n
    fn at(self, n: usize) -> P {
        match self {
            Bad::Long(k) => {
                let st = k as usize / 8 % (n + 1);
                (st, n - st + 1 + k as usize % 8)
            }
            Bad::Start(k, e) => (n + 1 + k as usize, e as usize),
            Bad::Wrap(k, e) => {
                // start + extent == something in 0..=n modulo 2^64, both large or start beyond n
                let to = e as usize % (n + 1);
                let start = match k % 3 {
                    0 => usize::MAX - (k as usize / 3 % 64),
                    1 => (usize::MAX >> 1) + 1 + (k as usize / 3 % 64),
                    _ => 1 + to + k as usize / 3 % (n + 1).max(1),
                };
                (start, to.wrapping_sub(start))
            }
            Bad::Huge(k) => (k as usize % (n + 1), usize::MAX - k as usize),
        }
    }
    fn really_bad(self, n: usize) -> bool {
        let (s, e) = self.at(n);
        s as u128 + e as u128 > n as u128
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refuse {
    ty: Ty,
    spec: MSpec,
    good: Rect,
    rows: Option<Bad>,
    cols: Option<Bad>,
    nested: Option<Rect>,
}
fn refuse_cases() -> BoxedStrategy<Refuse> {
    let bad = || {
        prop_oneof![
            4 => any::<u8>().prop_map(Bad::Long),
            2 => (0u8..=5, 0u8..=5).prop_map(|(a, b)| Bad::Start(a, b)),
            3 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Bad::Wrap(a, b)),
            1 => any::<u8>().prop_map(Bad::Huge),
        ]
    };
    (ty(), spec_kinds(&DYN_MATS, small_dims(), INJ), rect(), prop::option::of(bad()), prop::option::of(bad()), prop::option::of(rect()))
        .prop_map(|(ty, spec, good, rows, cols, nested)| Refuse { ty, spec, good, rows, cols, nested })
        .boxed()
}
fn check_refuse(c: &Refuse, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    o.label_if(matches!(c.rows, Some(Bad::Wrap(..))) || matches!(c.cols, Some(Bad::Wrap(..))), "wrapping-rectangle");
    o.label_if(c.nested.is_some(), "of-a-block");
    with_ty!(c.ty, T => {
        let model = Model::<T>::new(&c.spec, Fill::Index, 0);
        let mut buf = model.buf.clone();
        let mut res = Ok(());
        with_blk::<T>(&c.spec, &mut buf, &mut |m| {
            let d = (c.spec.rows, c.spec.cols);
            match &c.nested {
                None => res = refuse_one(c, m, d, o),
                Some(r) => {
                    let (tl, nd) = r.at(d);
                    m.blk_mut(tl, nd, &mut |b| res = refuse_one(c, b, nd, o))
                }
            }
        });
        res?;
        model.check_buf(&buf)
    })
}
fn refuse_one<T: Sc>(c: &Refuse, m: &mut dyn BlkMut<T>, d: P, o: &mut Obs) -> Res {
    let (mut tl, mut nd) = c.good.at(d);
    let mut bad = false;
    if let Some(b) = c.rows {
        (tl.0, nd.0) = b.at(d.0);
        bad |= b.really_bad(d.0);
    }
    if let Some(b) = c.cols {
        (tl.1, nd.1) = b.at(d.1);
        bad |= b.really_bad(d.1);
    }
    if bad {
        o.hit();
        ensure!(refuses(|| m.blk(tl, nd, &mut |_| ())), "block at {tl:?} of dimension {nd:?} of a {}x{} matrix ({}) was not refused", d.0, d.1, c.spec.describe());
        ensure!(refuses(|| m.blk_mut(tl, nd, &mut |_| ())), "mutable block at {tl:?} of dimension {nd:?} of a {}x{} matrix ({}) was not refused", d.0, d.1, c.spec.describe());
    } else {
        o.label("inside");
        let mut dim = None;
        m.blk(tl, nd, &mut |b| dim = Some(b.dim()));
        ensure!(dim == Some(nd), "block at {tl:?}: dimension {dim:?} instead of {nd:?}");
    }
    Ok(())
}

// --- computing on blocks of different matrices ------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Comp {
    ty: Ty,
    order: [bool; 3],
    m: usize,
    k: usize,
    n: usize,
    /// for A, B, C: position of the block and padding below/right of it
    place: [(u8, u8, u8, u8); 3],
    nest: bool,
    seed: u64,
    alpha: (i8, i8),
    beta: (i8, i8),
}
fn comp_cases() -> BoxedStrategy<Comp> {
    let d = || prop_oneof![6 => 1usize..=6, 1 => 0usize..=1, 2 => 7usize..=40];
    let pl = || prop::array::uniform3((0u8..=3, 0u8..=3, 0u8..=3, 0u8..=3));
    (ty(), prop::array::uniform3(any::<bool>()), d(), d(), d(), pl(), any::<bool>(), any::<u64>(), (-3i8..=3, -3i8..=3), (-3i8..=3, -3i8..=3))
        .prop_map(|(ty, order, m, k, n, place, nest, seed, alpha, beta)| Comp { ty, order, m, k, n, place, nest, seed, alpha, beta })
        .boxed()
}
struct Parent<T: Sc> {
    buf: Vec<T>,
    dim: P,
    tl: P,
    d: P,
}
impl<T: Sc> Parent<T> {
    fn new(d: P, p: (u8, u8, u8, u8), seed: u64, salt: u64) -> Self {
        let dim = (d.0 + p.0 as usize + p.2 as usize, d.1 + p.1 as usize + p.3 as usize);
        Parent { buf: fill_vec(Fill::Ints(seed), salt, dim.0 * dim.1), dim, tl: (p.0 as usize, p.1 as usize), d }
    }
}
/// bind a read-only block of parent `p` in its storage order
macro_rules! with_block {
    ($p:expr, $col:expr, $nest:expr, $b:ident => $e:expr) => {
        if $col {
            let m = SliceMatrix::<_, ColumnMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&$p.buf), ColumnMajor::new($p.dim));
            if $nest {
                let x = m.block((0, $p.tl.1), ($p.dim.0, $p.dim.1 - $p.tl.1));
                let $b = x.block(($p.tl.0, 0), $p.d);
                $e
            } else {
                let $b = m.block($p.tl, $p.d);
                $e
            }
        } else {
            let m = SliceMatrix::<_, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&$p.buf), RowMajor::new($p.dim));
            if $nest {
                let x = m.block(($p.tl.0, 0), ($p.dim.0 - $p.tl.0, $p.dim.1));
                let $b = x.block((0, $p.tl.1), $p.d);
                $e
            } else {
                let $b = m.block($p.tl, $p.d);
                $e
            }
        }
    };
}
fn check_comp(c: &Comp, o: &mut Obs) -> Res {
    if c.m * c.n * c.k > 0 && c.place.iter().any(|p| p.0 + p.1 + p.2 + p.3 > 0) {
        o.hit()
    }
    o.label_if(c.nest, "nested");
    o.label_if(c.order != [false; 3] && c.order != [true; 3], "mixed-orders");
    with_ty!(c.ty, T => comp::<T>(c))
}
fn comp<T: Sc>(c: &Comp) -> Res {
    let a = Parent::<T>::new((c.m, c.k), c.place[0], c.seed, 0);
    let b = Parent::<T>::new((c.k, c.n), c.place[1], c.seed, 1);
    let mut cc = Parent::<T>::new((c.m, c.n), c.place[2], c.seed, 2);
    let alpha = T::mk(c.alpha.0 as f64, c.alpha.1 as f64);
    let beta = T::mk(c.beta.0 as f64, c.beta.1 as f64);
    // on independent copies
    let mut want = MatrixD::<T, RowMajor>::zeros_from_dim(c.m, c.n);
    with_block!(cc, c.order[2], c.nest, cb => for i in 0..c.m { for j in 0..c.n { *want.get_mut(i, j) = cb.get(i, j); } });
    let mut ac = MatrixD::<T, RowMajor>::zeros_from_dim(c.m, c.k);
    with_block!(a, c.order[0], c.nest, ab => for i in 0..c.m { for j in 0..c.k { *ac.get_mut(i, j) = ab.get(i, j); } });
    let mut bc = MatrixD::<T, RowMajor>::zeros_from_dim(c.k, c.n);
    with_block!(b, c.order[1], c.nest, bb => for i in 0..c.k { for j in 0..c.n { *bc.get_mut(i, j) = bb.get(i, j); } });
    T::mm(alpha, &ac, &bc, beta, &mut want);
    let before = cc.buf.clone();
    let (dim, tl, d) = (cc.dim, cc.tl, cc.d);
    with_block!(a, c.order[0], c.nest, ab => with_block!(b, c.order[1], c.nest, bb => {
        if c.order[2] {
            let mut p = MatrixMutOver::<T, ColumnMajor>::from_data(SliceContainerMut::new(&mut cc.buf), ColumnMajor::new(dim));
            T::mm(alpha, &ab, &bb, beta, &mut p.block_mut(tl, d));
        } else {
            let mut p = MatrixMutOver::<T, RowMajor>::from_data(SliceContainerMut::new(&mut cc.buf), RowMajor::new(dim));
            T::mm(alpha, &ab, &bb, beta, &mut p.block_mut(tl, d));
        }
    }));
    for r in 0..dim.0 {
        for k in 0..dim.1 {
            let p = if c.order[2] { k * dim.0 + r } else { r * dim.1 + k };
            let inside = r >= tl.0 && r < tl.0 + d.0 && k >= tl.1 && k < tl.1 + d.1;
            let w = if inside { want.get(r - tl.0, k - tl.1) } else { before[p] };
            // exact integers: only the sign of a zero may differ
            let g = cc.buf[p];
            ensure!(
                g == w || g.same(w),
                "product of blocks {}x{}x{}: parent element ({r},{k}) ({}) is {} instead of {}",
                c.m, c.k, c.n, if inside { "in the block" } else { "outside the block" }, show(g), show(w)
            );
        }
    }
    // sum of blocks of two matrices
    let b2 = Parent::<T>::new((c.m, c.k), c.place[1], c.seed, 3);
    macro_rules! sum {
        ($L:ident) => {{
            let pa = SliceMatrix::<T, $L, Dynamic, Dynamic>::from_data(SliceContainer::new(&a.buf), $L::new(a.dim));
            let pb = SliceMatrix::<T, $L, Dynamic, Dynamic>::from_data(SliceContainer::new(&b2.buf), $L::new(b2.dim));
            let s = (&pa.block(a.tl, a.d) + &pb.block(b2.tl, b2.d)).eval();
            for i in 0..c.m {
                for j in 0..c.k {
                    let w = pa.get(a.tl.0 + i, a.tl.1 + j).radd(pb.get(b2.tl.0 + i, b2.tl.1 + j));
                    ensure!(s.get(i, j).same(w), "sum of blocks: element ({i},{j}) is {} instead of {}", show(s.get(i, j)), show(w));
                }
            }
        }};
    }
    if c.order[0] {
        sum!(ColumnMajor)
    } else {
        sum!(RowMajor)
    }
    Ok(())
}

pub fn c05() -> Vec<Sub> {
    vec![
        sub("windows", 120_000, 2_500_000, cases, check),
        sub("refusals", 200_000, 3_000_000, refuse_cases, check_refuse),
        sub("computing_on_blocks", 60_000, 400_000, comp_cases, check_comp),
        sub("windows_large", 2_400, 4_000, big_cases, check),
        sub("windows_huge", 8, 300, huge_cases, check),
    ]
}
