//! C27: faults in code the library calls.
use super::hist::*;
use householder::*;
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use vh::alloc;
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::user::*;
use vh::with_ty;

/// Runs `f` three times; the third run leaves exactly the memory the second left.
fn balanced<R>(mut f: impl FnMut() -> Result<R, Fail>) -> Result<R, Fail> {
    f()?;
    f()?;
    let a = alloc::live();
    let r = f()?;
    let b = alloc::live();
    drop_check(a, b)?;
    Ok(r)
}
fn drop_check(a: (i64, i64), b: (i64, i64)) -> Res {
    ensure!(a == b, "the faults leave {} more blocks with {} bytes unreleased", b.0 - a.0, b.1 - a.1);
    Ok(())
}

// --- matrices of every kind: visits and random filling that are interrupted ----------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// the closure panics at visit k (counted from the front or the back), before or after it writes
    Visit { k: u16, back: bool, wrote: bool },
    /// the generator panics at draw k
    Fill { k: u16, seed: u64 },
    /// without a fault
    Whole,
    Put { i: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Held {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    steps: Vec<Step>,
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let k = || prop_oneof![3 => 0u16..8, 1 => any::<u16>()];
    prop::collection::vec(
        prop_oneof![
            4 => (k(), any::<bool>(), any::<bool>()).prop_map(|(k, back, wrote)| Step::Visit { k, back, wrote }),
            3 => (any::<u16>(), any::<u64>()).prop_map(|(k, seed)| Step::Fill { k, seed }),
            1 => Just(Step::Whole),
            1 => any::<u16>().prop_map(|i| Step::Put { i }),
        ],
        1..6,
    )
    .boxed()
}
fn helds() -> BoxedStrategy<Held> {
    (ty(), spec_kinds(&ALL_KINDS, dims(), INJ), fill(), steps()).prop_map(|(ty, s, fill, steps)| Held { ty, s, fill, steps }).boxed()
}
fn helds_big() -> BoxedStrategy<Held> {
    (ty(), spec_kinds(&ALL_KINDS, big_dims(), INJ), fill(), steps()).prop_map(|(ty, s, fill, steps)| Held { ty, s, fill, steps }).boxed()
}
fn helds_huge() -> BoxedStrategy<Held> {
    (ty(), spec_kinds(&ALL_KINDS, huge_dims(), INJ), fill(), steps()).prop_map(|(ty, s, fill, steps)| Held { ty, s, fill, steps }).boxed()
}
fn check_held(c: &Held, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    o.label_if(c.s.clen > c.s.n(), "padding");
    let n = with_ty!(c.ty, T => held::<T>(c))?;
    o.label_if(n > 1, "several-faults");
    if n > 0 && c.s.n() > 1 {
        o.hit()
    }
    Ok(())
}
fn val<T: Sc>(step: usize, i: usize) -> T {
    T::mk(1000.0 * (step + 1) as f64 + i as f64, -(i as f64) - 0.5)
}
fn held<T: Sc>(c: &Held) -> Result<u32, Fail> {
    let mut model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let (sh, n) = (c.s.shape(), c.s.n());
    let what = c.s.describe();
    let mut res = Ok(());
    let mut faults = 0;
    with_stored(&c.s, &mut buf, &mut |m| {
        res = (|| {
            for (j, step) in c.steps.iter().enumerate() {
                match *step {
                    Step::Visit { k, back, wrote } => {
                        let k = k as usize % (n + 1);
                        let k = if back { n - k } else { k };
                        let mut i = 0;
                        let hit = boom(|| {
                            m.for_each(&mut |x| {
                                if i == k && !wrote {
                                    std::panic::panic_any(Boom(k))
                                }
                                *x = val(j, i);
                                if i == k {
                                    std::panic::panic_any(Boom(k))
                                }
                                i += 1;
                            })
                        });
                        let want = if k < n { Some(k) } else { None };
                        ensure!(hit == want, "{what}: step {j}: for_each ended with fault {hit:?}, should be {want:?}");
                        let wrote = if k < n { k + wrote as usize } else { n };
                        for i in 0..wrote {
                            let (r, q) = sh.at(i);
                            model.set(r, q, val(j, i));
                        }
                        faults += hit.is_some() as u32;
                    }
                    Step::Fill { k, seed } => {
                        let k = k as usize % (n * (1 + T::COMPLEX as usize) + 1);
                        let mut g = FlakyRng { g: rand::rngs::StdRng::seed_from_u64(seed), left: Some(k) };
                        let mut h = FlakyRng { g: g.g.clone(), left: None };
                        let hit = boom(|| m.fill(&mut g));
                        for i in 0..n {
                            let (r, q) = sh.at(i);
                            let (new, old, got) = (T::draw(&mut h), model.at(r, q), m.rd(r, q));
                            ensure!(got.same(new) || hit.is_some() && got.same(old),
                                "{what}: step {j}: after a random filling that {}, element ({r},{q}) is {}, was {}, and its random value is {}",
                                if hit.is_some() { "was interrupted" } else { "went through" }, show(got), show(old), show(new));
                            model.set(r, q, got);
                        }
                        faults += hit.is_some() as u32;
                    }
                    Step::Whole => {
                        let mut i = 0;
                        m.for_each(&mut |x| {
                            *x = val(j, i);
                            i += 1
                        });
                        ensure!(i == n, "{what}: step {j}: {i} visits of {n} elements");
                        for i in 0..n {
                            let (r, q) = sh.at(i);
                            model.set(r, q, val(j, i));
                        }
                    }
                    Step::Put { i } => {
                        if n > 0 {
                            let i = i as usize % n;
                            let (r, q) = sh.at(i);
                            *m.at1_mut(i) = val(j, 77);
                            model.set(r, q, val(j, 77));
                        }
                    }
                }
                model.check_view(m, n <= 60)?;
            }
            Ok(())
        })()
    });
    res?;
    model.check_buf(&buf)?;
    Ok(faults)
}

// --- expressions with an operand that fails --------------------------------------------------------------------

/// e := leaf | x * e | e + e; leaves are matrices (by value or reference), references to them, or the operand that fails.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ex {
    ty: Ty,
    order: Order,
    dim: (usize, usize),
    form: u8,
    z: u32,
    k: u16,
    /// reads by position / number / evaluation
    via: u8,
}
impl Ex {
    /// how often an undisturbed use reads the operand that fails
    fn reads(&self, n: usize) -> usize {
        (if self.via < 3 { n } else { 1 }) * if self.form == 6 { 2 } else { 1 }
    }
}
fn exs() -> BoxedStrategy<Ex> {
    let o = prop::sample::select(vec![Order::Row, Order::Col, Order::Upper]);
    (ty(), o, small_dims(), 0u8..8, any::<u32>(), prop_oneof![3 => 0u16..10, 1 => any::<u16>()], 0u8..6)
        .prop_map(|(ty, order, d, form, z, k, via)| Ex { ty, order, dim: if order == Order::Upper { (d.0, d.0) } else { d }, form, z, k, via })
        .boxed()
}
fn check_ex(c: &Ex, o: &mut Obs) -> Res {
    let n = Shape { order: c.order, rows: c.dim.0, cols: c.dim.1 }.n();
    let reads = c.reads(n);
    if n > 1 && c.via != 5 && (c.k as usize % (reads + 1)) < reads {
        o.hit()
    }
    o.label(["row", "column", "upper"][c.order as usize % 3]);
    o.label(["evaluate", "evaluate", "evaluate", "by position", "by number", "drop unread"][c.via as usize]);
    with_ty!(c.ty, T => balanced(|| match c.order {
        Order::Row => ex::<T, RowMajor>(c),
        Order::Col => ex::<T, ColumnMajor>(c),
        Order::Upper => ex::<T, UpperTriangular>(c),
    }))
}
fn ex<T: Hs, L: BaseLayoutType<IndexLayout = L> + 'static>(c: &Ex) -> Res {
    let sh = Shape { order: c.order, rows: c.dim.0, cols: c.dim.1 };
    let n = sh.n();
    let what = format!("form {} over {:?} {:?}", c.form, c.order, c.dim);
    let own = |w: u32| {
        let mut m = MatrixD::<T, L>::zeros_from_dim(c.dim.0, c.dim.1);
        let mut i = 0;
        m.for_each(|v| {
            *v = small(c.z ^ w, i);
            i += 1
        });
        m
    };
    let left = std::rc::Rc::new(std::cell::Cell::new(None));
    let flaky = |k: Option<usize>| -> FlakyMat<T, L> {
        left.set(k);
        Matrix::new(Flaky::new(small, c.z, L::from_dimension(c.dim), &left))
    };
    let (x, y) = (small::<T>(c.z, 501), small::<T>(c.z, 502));
    let f = |i: usize| small::<T>(c.z, i);
    let a = |i: usize| small::<T>(c.z ^ 1, i);
    let b = |i: usize| small::<T>(c.z ^ 2, i);
    // which read fails
    let reads = c.reads(n);
    let k = c.k as usize % (reads + 1);
    let at = if n > 0 { (c.z >> 8) as usize % n } else { 0 };
    macro_rules! go {
        // an expression that stays: used again after the fault
        ($e:expr, $w:expr) => {{
            let e = $e;
            let w: &dyn Fn(usize) -> T = &$w;
            for fault in [true, false, true] {
                left.set(if fault { Some(k) } else { None });
                let hit = boom(|| -> Res { read!(e, w) });
                let want = fault && k < reads && n > 0 && c.via != 5;
                ensure!(hit.is_some() == want, "{what}: a fault at read {k} of {reads} ended with {hit:?}");
            }
        }};
    }
    macro_rules! read {
        ($e:expr, $w:expr) => {{
            let e = &$e;
            let bad = |got: T, i: usize| -> Res {
                let want: T = $w(i);
                if !(got == want) {
                    panic!("{what}: element {i} is {}, should be {}", show(got), show(want))
                }
                Ok(())
            };
            match c.via {
                5 => {}
                _ if n == 0 => {}
                3 => {
                    let (r, q) = sh.at(at);
                    bad(e.get(r, q), at)?
                }
                4 => bad(e.get1d(at), at)?,
                _ => {
                    let m = e.eval();
                    for i in 0..n {
                        bad(m.get1d(i), i)?;
                    }
                }
            }
            Ok(())
        }};
    }
    let (ma, mb) = (own(1), own(2));
    match c.form {
        0 => {
            let f0 = flaky(None);
            go!(&f0 + &ma, |i| f(i).radd(a(i)))
        }
        1 => {
            let f0 = flaky(None);
            go!(&ma + &f0, |i| a(i).radd(f(i)))
        }
        2 => {
            let f0 = flaky(None);
            go!(T::s_m(x, own(1) + T::rm_s(&f0, y)), |i| x.rmul(a(i).radd(y.rmul(f(i)))))
        }
        3 => {
            let f0 = flaky(None);
            go!(own(1) + (T::s_rm(x, &f0) + own(2)), |i| a(i).radd(x.rmul(f(i)).radd(b(i))))
        }
        4 => {
            let f0 = flaky(None);
            go!(T::s_rm(y, &f0), |i| y.rmul(f(i)))
        }
        6 => {
            let f0 = flaky(None);
            go!(&f0 + &f0, |i| f(i).radd(f(i)))
        }
        // everything belongs to the call that is interrupted
        w => {
            let hit = boom(|| -> Res {
                if w == 5 {
                    let e = own(1) + T::s_m(x, flaky(Some(k)) + own(2));
                    read!(e, |i| a(i).radd(x.rmul(f(i).radd(b(i)))))
                } else {
                    let e = T::m_s(flaky(Some(k)), y) + own(1);
                    read!(e, |i| y.rmul(f(i)).radd(a(i)))
                }
            });
            let want = k < reads && n > 0 && c.via != 5;
            ensure!(hit.is_some() == want, "{what}: a fault at read {k} of {reads} ended with {hit:?}");
        }
    }
    for i in 0..n {
        ensure!(ma.get1d(i) == a(i) && mb.get1d(i) == b(i), "{what}: the interrupted evaluation changed element {i} of an operand");
    }
    Ok(())
}

// --- histories ---------------------------------------------------------------------------------------------------

fn faulty() -> BoxedStrategy<Hist> {
    let ops = prop_oneof![5 => op(), 4 => fault()].boxed();
    prop_oneof![hist_of(30, ops.clone()), hist_of(8, ops)].boxed()
}
fn check_hist(h: &Hist, o: &mut Obs) -> Res {
    let (n, faults) = with_ty!(h.ty, T => balanced(|| play_faults::<T>(h)))?;
    if n >= 3 && faults >= 1 {
        o.hit()
    }
    o.label_if(faults >= 1, "faults");
    o.label_if(faults >= 4, "4-or-more-faults");
    Ok(())
}

pub fn c27() -> Vec<Sub> {
    vec![
        sub("interrupted", 120_000, 2_000_000, helds, check_held),
        sub("large", 600, 6_000, helds_big, check_held),
        sub("huge", 8, 300, helds_huge, check_held),
        sub("expressions", 120_000, 2_000_000, exs, check_ex),
        sub("histories", 60_000, 1_000_000, faulty, check_hist),
    ]
}
