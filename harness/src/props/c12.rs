//! C12: the product writes the result's elements only, and refuses dimensions that do not fit.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::mul::*;
use vh::scal::*;
use vh::{any_rw, with_ty};

fn any_prod() -> BoxedStrategy<Prod> {
    prop_oneof![1 => prods(dims_mul(), true), 2 => prods(dims_mul(), false)]
        .prop_flat_map(|p| (Just(p), 0u8..4, any::<u64>()))
        .prop_map(|(mut p, special, s)| {
            if special == 0 {
                // contents do not matter here: also infinities and NaN
                p.fill = Fill::Special(s);
            }
            p
        })
        .boxed()
}
fn big() -> BoxedStrategy<Prod> {
    prods(dims_mul_big(), false)
}
fn check_frames(p: &Prod, o: &mut Obs) -> Res {
    super::base::labels(p, o);
    o.label_if(p.c.total > p.c.n() && p.c.extent() > p.c.n(), "gaps-inside-the-result");
    with_ty!(p.ty, T => {
        let m = models::<T>(p);
        let bufs = execute(p, &m);
        check_frame(p, &m, &bufs)
    })
}

// --- refusals ----------------------------------------------------------------------------------------------

const SLACK: usize = 4000;

fn misfits() -> BoxedStrategy<Prod> {
    gen_misfits(false)
}
fn misfits_far() -> BoxedStrategy<Prod> {
    gen_misfits(true)
}
fn gen_misfits(far_off: bool) -> BoxedStrategy<Prod> {
    let dim = || prop_oneof![6 => 1usize..=6, 1 => Just(0usize), 1 => 7usize..=12];
    (ty(), form(), [dim(), dim(), dim()], 1u8..8, [dim(), dim(), dim()], 0u8..4, 0u32..50)
        .prop_flat_map(move |(ty, form, [mut m, k, mut n], mask, other, how, far)| {
            let mut mask = mask;
            match form {
                Form::MatVec => {
                    n = 1;
                    mask &= 3;
                }
                Form::VecMat => {
                    m = 1;
                    mask &= 5;
                }
                _ => {}
            }
            if mask == 0 {
                mask = 1
            }
            let differ = |x: usize, y: usize| match how {
                // equal in the low bits
                _ if far_off => x + if far == 0 && mask.count_ones() == 1 { 65536 } else { 256 << (far % 3) },
                0 => x + 1,
                1 if x > 0 => x - 1,
                _ if y != x => y,
                _ => x + 2,
            };
            let k2 = if mask & 1 != 0 { differ(k, other[0]) } else { k };
            let m2 = if mask & 2 != 0 { differ(m, if how == 3 { n } else { other[1] }) } else { m };
            let n2 = if mask & 4 != 0 { differ(n, if how == 3 { m } else { other[2] }) } else { n };
            (Just(ty), Just(form), operands(form, [(m, k), (k2, n), (m2, n2)]), float_fill(), float_fill(), fac_any(), fac_any())
        })
        .prop_map(|(ty, form, (mut a, mut b, mut c), fill, cfill, alpha, beta)| {
            let far = [a.rows, a.cols, b.rows, b.cols, c.rows, c.cols].iter().any(|d| *d > 200);
            for s in [&mut a, &mut b, &mut c] {
                s.total += if far { 20 * SLACK } else { SLACK };
            }
            Prod { ty, form, a, b, c, alias: false, near: None, fill, cfill, alpha, beta }
        })
        .boxed()
}
fn check_misfit(p: &Prod, o: &mut Obs) -> Res {
    let (a, b, c) = (&p.a, &p.b, &p.c);
    let bad = [a.cols != b.rows, a.rows != c.rows, b.cols != c.cols];
    if bad == [false; 3] {
        return Ok(()); // only reachable while shrinking
    }
    o.hit();
    o.label_if(bad[0] && !bad[1] && !bad[2], "only-inner");
    o.label_if(!bad[0] && bad[1] && !bad[2], "only-result-rows");
    o.label_if(!bad[0] && !bad[1] && bad[2], "only-result-columns");
    o.label_if(c.n() == 0 || a.n() == 0 || b.n() == 0, "some-empty");
    let low = |x: usize, y: usize| x != y && x % 256 == y % 256;
    o.label_if(low(a.cols, b.rows) || low(a.rows, c.rows) || low(b.cols, c.cols), "equal-in-the-low-bits");
    o.label_if(c.n() == a.rows * b.cols, "same-number-of-elements");
    with_ty!(p.ty, T => {
        let m = models::<T>(p);
        let (ab, bb, mut cb) = (m[0].buf.clone(), m[1].buf.clone(), m[2].buf.clone());
        let refused = refuses(|| run::<T>(p.form, p.alpha.value(), &p.a, &ab, &p.b, &bb, p.beta.value(), &p.c, &mut cb));
        ensure!(refused, "incompatible dimensions were accepted: {}", p.describe());
        m[0].check_buf(&ab)?;
        m[1].check_buf(&bb)?;
        m[2].check_buf(&cb)
    })
}

// --- all three in one parent -----------------------------------------------------------------------------

/// A, B and C are disjoint blocks of one matrix.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    ty: Ty,
    parent: MSpec,
    /// sizes of the row strips and column strips
    m: usize,
    k: usize,
    n: usize,
    /// use split_in_four_mut instead of disjoint block views (row-major parents)
    split: bool,
    fill: Fill,
    alpha: Fac,
    beta: Fac,
}
fn ones() -> BoxedStrategy<One> {
    let d = || 1usize..=8;
    (ty(), d(), d(), d(), 0usize..=3, 0usize..=3, prop::sample::select(DYN_MATS.to_vec()), any::<bool>())
        .prop_flat_map(|(ty, m, k, n, er, ec, kind, split)| {
            // rows: [m | k | ...], cols: [k | n | ...]
            let kind = if split { Kind::RM } else { kind };
            let dim = if split { (m + k, k + n) } else { (m + k + er, k + n + ec) };
            (Just(ty), spec_for(kind, dim, INJ), Just((m, k, n)), Just(split), int_fill(), fac(), fac())
        })
        .prop_map(|(ty, parent, (m, k, n), split, fill, alpha, beta)| One { ty, parent, m, k, n, split, fill, alpha, beta })
        .boxed()
}
fn check_one(c: &One, o: &mut Obs) -> Res {
    o.hit();
    o.label(if c.split { "split-in-four" } else { "blocks-of-one-parent" });
    with_ty!(c.ty, T => one::<T>(c))
}
fn one<T: Sc>(c: &One) -> Res {
    // A is rows 0..m, columns 0..k; B is rows m..m+k, columns k..k+n; C is rows 0..m, columns k..k+n
    let mut model = Model::<T>::new(&c.parent, c.fill, 0);
    let mut buf = model.buf.clone();
    let (m, k, n) = (c.m, c.k, c.n);
    let (alpha, beta): (T, T) = (c.alpha.value(), c.beta.value());
    if c.split {
        let AnyRw::RM(mut p) = AnyRw::new(&c.parent, &mut buf) else { panic!() };
        let (a, mut r, _, b) = p.split_in_four_mut((m, k));
        T::mm(alpha, &a, &b, beta, &mut r);
    } else {
        let mut p = AnyRw::new(&c.parent, &mut buf);
        // three views of disjoint rectangles; the library only ever sees raw pointers into the parent
        let q = &mut p as *mut AnyRw<T>;
        unsafe {
            let a = (*q).block((0, 0), (m, k));
            let b = (*q).block((m, k), (k, n));
            let mut r = (*q).block((0, k), (m, n));
            match (&a, &b, &mut r) {
                (AnyRw::SRM(a), AnyRw::SRM(b), AnyRw::SRM(r)) => T::mm(alpha, a, b, beta, r),
                (AnyRw::SCM(a), AnyRw::SCM(b), AnyRw::SCM(r)) => T::mm(alpha, a, b, beta, r),
                _ => panic!(),
            }
            any_rw!(&r, r => ensure!(r.dim() == (m, n), "{c:?}: dimension of the result changed"));
        }
    }
    for i in 0..m {
        for j in 0..n {
            let w = reference(alpha, &|i, j| model.at(i, j), &|i, j| model.at(m + i, k + j), k, beta, model.at(i, k + j), i, j);
            let at = c.parent.pos(i, k + j);
            if let Some(e) = w.wrong(buf[at], k, true) {
                return fail(format!("{c:?}: element ({i},{j}) of the result block is {e}"));
            }
        }
    }
    for i in 0..m {
        for j in 0..n {
            let at = c.parent.pos(i, k + j);
            model.buf[at] = buf[at];
        }
    }
    model.check_buf(&buf)
}

pub fn c12() -> Vec<Sub> {
    vec![
        sub("frame", 80_000, 1_500_000, any_prod, check_frames),
        sub("frame_large", 1_200, 8_000, big, check_frames),
        sub("refusals", 40_000, 600_000, misfits, check_misfit),
        sub("refusals_far", 3_000, 60_000, misfits_far, check_misfit),
        sub("one_parent", 30_000, 500_000, ones, check_one),
    ]
}
