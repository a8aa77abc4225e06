//! C06: splitting in four.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

type P = (usize, usize);

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum W {
    Pair,
    Linear,
    PairUnchecked,
    LinearUnchecked,
    Ptr,
    Slice,
    ForEach,
    Ref,
    /// through a block of the quadrant
    SubBlock,
    /// an access outside the quadrant, which must be refused
    Outside,
    OutsideLinear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    quadrant: u8,
    w: W,
    pick: u32,
    val: u32,
    full: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
    vals: Fill,
    at: (u32, u32),
    ops: Vec<Op>,
    /// split again afterwards, somewhere else
    again: Option<(u32, u32)>,
}
fn coord() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(0u32), 2 => Just(u32::MAX), 6 => 1u32..=20, 3 => any::<u32>()].boxed()
}
/// u32::MAX selects the far border
fn pick(c: u32, n: usize) -> usize {
    if c == u32::MAX {
        n
    } else {
        c as usize % (n + 1)
    }
}
const RM: [Kind; 1] = [Kind::RM];
fn gen(d: BoxedStrategy<P>) -> BoxedStrategy<Case> {
    let w = prop::sample::select(vec![
        W::Pair, W::Pair, W::Linear, W::Linear, W::PairUnchecked, W::LinearUnchecked, W::Ptr, W::Slice, W::ForEach, W::Ref, W::SubBlock, W::Outside, W::OutsideLinear,
    ]);
    let op = (0u8..4, w, any::<u32>(), any::<u32>(), prop::bool::weighted(0.2)).prop_map(|(quadrant, w, pick, val, full)| Op { quadrant, w, pick, val, full });
    (ty(), spec_kinds(&RM, d, INJ), fill(), fill(), (coord(), coord()), prop::collection::vec(op, 0..=10), prop::option::weighted(0.2, (coord(), coord())))
        .prop_map(|(ty, spec, fill, vals, at, ops, again)| Case { ty, spec, fill, vals, at, ops, again })
        .boxed()
}
fn cases() -> BoxedStrategy<Case> {
    gen(prop_oneof![3 => (1usize..=10, 1usize..=10), 1 => dims(), 1 => small_dims()].boxed())
}
fn big_cases() -> BoxedStrategy<Case> {
    gen(big_dims())
}
fn huge_cases() -> BoxedStrategy<Case> {
    gen(huge_dims())
}

fn quadrants(d: P, at: P) -> [(P, P); 4] {
    [
        ((0, 0), at),
        ((0, at.1), (at.0, d.1 - at.1)),
        ((at.0, 0), (d.0 - at.0, at.1)),
        (at, (d.0 - at.0, d.1 - at.1)),
    ]
}

fn check(c: &Case, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    let d = (c.spec.rows, c.spec.cols);
    let at = (pick(c.at.0, d.0), pick(c.at.1, d.1));
    let empties = quadrants(d, at).iter().filter(|q| q.1 .0 * q.1 .1 == 0).count();
    o.label_if(empties == 0, "all-four-non-empty");
    o.label_if(at.0 == 0 || at.1 == 0, "at-near-border");
    o.label_if(at.0 == d.0 || at.1 == d.1, "at-far-border");
    if c.spec.n() > 1 && empties < 3 {
        o.hit()
    }
    with_ty!(c.ty, T => {
        let mut model = Model::<T>::new(&c.spec, c.fill, 0);
        let mut buf = model.buf.clone();
        let mut res = Ok(());
        with_blk::<T>(&c.spec, &mut buf, &mut |m| {
            res = split_once(c, &mut model, m, at, &c.ops);
            if let (true, Some(a)) = (res.is_ok(), c.again) {
                res = split_once(c, &mut model, m, (pick(a.0, d.0), pick(a.1, d.1)), &c.ops[..c.ops.len() / 2]);
            }
        });
        res?;
        model.check_buf(&buf)
    })
}

fn split_once<T: Sc>(c: &Case, model: &mut Model<T>, m: &mut dyn BlkMut<T>, at: P, ops: &[Op]) -> Res {
    let base = m.ptr() as usize;
    let d = (c.spec.rows, c.spec.cols);
    let q = quadrants(d, at);
    let mut res = Ok(());
    m.split(at, &mut |mut b| res = quads(c, model, &mut b, at, &q, base, ops));
    res?;
    model.check_view(m, false)
}

fn view<T: Sc>(c: &Case, model: &Model<T>, b: &dyn BlkMut<T>, i: usize, q: (P, P), at: P, full: bool) -> Res {
    let what = format!("quadrant {i} of {} split at {at:?}", c.spec.describe());
    check_view(b, Shape { order: Order::Row, rows: q.1 .0, cols: q.1 .1 }, &what, full, &|r, k| model.at(q.0 .0 + r, q.0 .1 + k))
}

fn quads<T: Sc>(c: &Case, model: &mut Model<T>, b: &mut [&mut dyn BlkMut<T>; 4], at: P, q: &[(P, P); 4], base: usize, ops: &[Op]) -> Res {
    let cols = c.spec.cols;
    for i in 0..4 {
        view(c, model, b[i], i, q[i], at, c.spec.n() <= 400)?;
        let n = q[i].1 .0 * q[i].1 .1;
        if n > 0 {
            let got = (b[i].ptr() as usize).wrapping_sub(base) / std::mem::size_of::<T>();
            ensure!(got == q[i].0 .0 * cols + q[i].0 .1, "quadrant {i} of {} split at {at:?} starts at item {got}", c.spec.describe());
            let st = b[i].stride();
            ensure!(st == (cols, 1), "quadrant {i} of {} split at {at:?} has stride {st:?}", c.spec.describe());
        }
    }
    for op in ops {
        let i = op.quadrant as usize;
        let (o, d) = q[i];
        let n = d.0 * d.1;
        let m = &mut *b[i];
        let v: T = elem(c.vals, 3, op.val as usize);
        let what = |s: String| format!("quadrant {i} ({}x{}) of {} split at {at:?}: {s}", d.0, d.1, c.spec.describe());
        match op.w {
            W::Outside => {
                // the neighbouring element in the parent, where there is one
                let (r, k) = if op.pick % 2 == 0 { (op.val as usize % d.0.max(1), d.1 + op.pick as usize / 2 % 3) } else { (d.0 + op.pick as usize / 2 % 3, op.val as usize % d.1.max(1)) };
                ensure!(refuses(|| *m.at_mut(r, k) = v), "{}", what(format!("write to ({r},{k}) was not refused")));
                ensure!(refuses(|| m.rd(r, k)), "{}", what(format!("read of ({r},{k}) was not refused")));
            }
            W::OutsideLinear => {
                let x = n + op.pick as usize % 5;
                ensure!(refuses(|| *m.at1_mut(x) = v), "{}", what(format!("write to linear index {x} was not refused")));
                ensure!(refuses(|| m.get1(x)), "{}", what(format!("read of linear index {x} was not refused")));
            }
            _ if n == 0 => m.for_each(&mut |_| panic!("closure called on an empty quadrant")),
            W::ForEach => {
                let mut j = 0;
                m.for_each(&mut |x| {
                    *x = elem(c.vals, 3, (op.val as usize).wrapping_add(j));
                    j += 1
                });
                ensure!(j == n, "{}", what(format!("for_each visited {j} elements")));
                for j in 0..n {
                    model.set(o.0 + j / d.1, o.1 + j % d.1, elem(c.vals, 3, (op.val as usize).wrapping_add(j)));
                }
            }
            w => {
                let x = op.pick as usize % n;
                let (r, k) = (x / d.1, x % d.1);
                let p = r * cols + k;
                match w {
                    W::Pair => *m.at_mut(r, k) = v,
                    W::Linear => *m.at1_mut(x) = v,
                    W::PairUnchecked => unsafe { *m.atu_mut(r, k) = v },
                    W::LinearUnchecked => unsafe { *m.atu1_mut(x) = v },
                    W::Ptr => unsafe { *m.ptr_mut().add(p) = v },
                    W::Slice => m.slice_mut(p, p + 1)[0] = v,
                    W::Ref => m.wrap_mut(1 + op.val as usize % 2, &mut |y| *y.at_mut(r, k) = v),
                    _ => m.blk_mut((r, k), (d.0 - r, d.1 - k), &mut |y| *y.at_mut(0, 0) = v),
                }
                model.set(o.0 + r, o.1 + k, v);
                let g = m.rd(r, k);
                ensure!(g.same(v), "{}", what(format!("after {w:?} of ({r},{k}) it reads {} instead of {}", show(g), show(v))));
            }
        }
        if op.full {
            for i in 0..4 {
                view(c, model, b[i], i, q[i], at, false)?;
            }
        }
    }
    for i in 0..4 {
        view(c, model, b[i], i, q[i], at, false)?;
    }
    Ok(())
}

// --- refusal ---------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Co {
    In(u32),
    Past(u32),
    Top(u32),
    Half(u32),
}
impl Co {
    fn at(self, n: usize) -> usize {
        match self {
            Co::In(c) => pick(c, n),
            Co::Past(k) => n + 1 + k as usize,
            Co::Top(k) => usize::MAX - k as usize,
            Co::Half(k) => (usize::MAX >> 1).wrapping_add(k as usize),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refuse {
    ty: Ty,
    spec: MSpec,
    at: (Co, Co),
}
fn refuse_cases() -> BoxedStrategy<Refuse> {
    let co = || {
        prop_oneof![
            4 => coord().prop_map(Co::In),
            4 => (0u32..=4).prop_map(Co::Past),
            1 => (0u32..=4).prop_map(Co::Top),
            1 => (0u32..=4).prop_map(Co::Half),
        ]
    };
    (ty(), spec_kinds(&RM, small_dims(), INJ), (co(), co())).prop_map(|(ty, spec, at)| Refuse { ty, spec, at }).boxed()
}
fn check_refuse(c: &Refuse, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    let at = (c.at.0.at(c.spec.rows), c.at.1.at(c.spec.cols));
    let bad = at.0 > c.spec.rows || at.1 > c.spec.cols;
    if bad {
        o.hit()
    } else {
        o.label("inside")
    }
    with_ty!(c.ty, T => {
        let model = Model::<T>::new(&c.spec, Fill::Index, 0);
        let mut buf = model.buf.clone();
        let mut res = Ok(());
        with_blk::<T>(&c.spec, &mut buf, &mut |m| {
            if bad {
                if !refuses(|| m.split(at, &mut |_| ())) {
                    res = fail(format!("split of {} at {at:?} was not refused", c.spec.describe()))
                }
            } else {
                let mut called = false;
                m.split(at, &mut |_| called = true);
                if !called {
                    res = fail("split closure not called")
                }
            }
        });
        res?;
        model.check_buf(&buf)
    })
}

// --- raw slices of the blocks ----------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    ty: Ty,
    spec: MSpec,
    at: (u32, u32),
}
fn raw_cases() -> BoxedStrategy<Raw> {
    (ty(), spec_kinds(&RM, (2usize..=6, 2usize..=6).boxed(), INJ), (1u32..=5, 1u32..=5)).prop_map(|(ty, spec, at)| Raw { ty, spec, at }).boxed()
}
/// The raw slice of a block must not contain an element of another block. What a block's slice may hold at most
/// is the span from its first to its last element; anything beyond that is a different failure.
fn check_raw(c: &Raw, o: &mut Obs) -> Res {
    let d = (c.spec.rows, c.spec.cols);
    let at = (pick(c.at.0, d.0), pick(c.at.1, d.1));
    let q = quadrants(d, at);
    if q.iter().filter(|q| q.1 .0 * q.1 .1 > 0).count() > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => {
        let model = Model::<T>::new(&c.spec, Fill::Index, 0);
        let mut buf = model.buf.clone();
        let mut res = Ok(());
        with_blk::<T>(&c.spec, &mut buf, &mut |m| m.split(at, &mut |mut b| {
            res = (|| {
                let mut overlap = None;
                for i in 0..4 {
                    let (o, bd) = q[i];
                    let span = if bd.0 * bd.1 == 0 { 0 } else { (bd.0 - 1) * d.1 + bd.1 };
                    ensure!(refuses(|| b[i].slice_mut(0, span + 1).len()), "quadrant {i} of {} split at {at:?}: a slice past its last element was not refused", c.spec.describe());
                    if span == 0 { continue; }
                    let sl = b[i].slice_mut(0, span);
                    ensure!(sl.len() == span, "quadrant {i}: slice of {} items instead of {span}", sl.len());
                    for (x, v) in sl.iter().enumerate() {
                        let p = o.0 * d.1 + o.1 + x;
                        ensure!(v.same(model.buf[c.spec.off + p]), "quadrant {i}: raw slice item {x} is not parent item {p}");
                        let (r, k) = (p / d.1, p % d.1);
                        let own = r >= o.0 && r < o.0 + bd.0 && k >= o.1 && k < o.1 + bd.1;
                        if !own {
                            overlap = Some((i, x, r, k));
                        }
                    }
                }
                if let Some((i, x, r, k)) = overlap {
                    return fail_sig("split-raw-slices-overlap", format!("quadrant {i} of {} split at {at:?}: item {x} of its mutable raw slice is parent element ({r},{k}) of another quadrant", c.spec.describe()));
                }
                Ok(())
            })()
        }));
        res
    })
}

pub fn c06() -> Vec<Sub> {
    vec![
        sub("quadrants", 160_000, 3_000_000, cases, check),
        sub("refusals", 120_000, 2_000_000, refuse_cases, check_refuse),
        sub("raw_slices", 4_000, 50_000, raw_cases, check_raw),
        sub("quadrants_large", 1_600, 4_000, big_cases, check),
        sub("quadrants_huge", 8, 300, huge_cases, check),
    ]
}
