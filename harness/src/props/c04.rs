//! C04: bounds-checked access refuses exactly the out-of-range requests.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::user::*;
use vh::with_ty;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Target {
    Plain,
    ReadOnly,
    Ref(u8),
    RefMut(u8),
    Scaled(u8),
    Scaled2(u8),
    Sum(u8),
    User,
    UserMut,
}

/// An index relative to a bound.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Sel {
    In(u32),
    /// bound + this
    Past(u32),
    /// usize::MAX - this
    Top(u32),
    /// such that index * stride wraps around to a small position
    Wrap(u32),
}
impl Sel {
    fn at(self, bound: usize, stride: usize) -> usize {
        match self {
            Sel::In(k) => {
                if bound == 0 {
                    0
                } else {
                    k as usize % bound
                }
            }
            Sel::Past(k) => bound.saturating_add(k as usize),
            Sel::Top(k) => usize::MAX - k as usize,
            Sel::Wrap(k) => {
                let st = stride.max(2) as u128;
                let q = ((1u128 << 64) * (1 + (k as u128 % 3)) / st) as u64 as usize;
                q.wrapping_add(k as usize % 4)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Pair,
    Linear,
    PairMut,
    LinearMut,
    Slice,
    SliceMut,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Acc {
    op: Op,
    a: Sel,
    b: Sel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
    target: Target,
    accs: Vec<Acc>,
}

fn sel() -> BoxedStrategy<Sel> {
    prop_oneof![
        6 => any::<u32>().prop_map(Sel::In),
        4 => (0u32..=3).prop_map(Sel::Past),
        1 => (0u32..=400).prop_map(Sel::Past),
        1 => (0u32..=3).prop_map(Sel::Top),
        1 => (0u32..=12).prop_map(Sel::Wrap),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    gen(prop_oneof![3 => small_dims(), 1 => dims()].boxed())
}
fn big_cases() -> BoxedStrategy<Case> {
    gen(big_dims())
}
fn huge_cases() -> BoxedStrategy<Case> {
    gen(huge_dims())
}
fn gen(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Case> {
    let op = prop::sample::select(vec![Op::Pair, Op::Pair, Op::Pair, Op::Linear, Op::Linear, Op::PairMut, Op::PairMut, Op::LinearMut, Op::Slice, Op::SliceMut]);
    let acc = (op, sel(), sel()).prop_map(|(op, a, b)| Acc { op, a, b });
    let target = prop_oneof![
        6 => Just(Target::Plain),
        2 => Just(Target::ReadOnly),
        2 => (1u8..=3).prop_map(Target::Ref),
        2 => (1u8..=2).prop_map(Target::RefMut),
        2 => (0u8..5).prop_map(Target::Scaled),
        1 => (0u8..4).prop_map(Target::Scaled2),
        2 => (0u8..4).prop_map(Target::Sum),
        1 => Just(Target::User),
        1 => Just(Target::UserMut),
    ];
    (ty(), spec_kinds(&ALL_KINDS, d, ANY), fill(), target, prop::collection::vec(acc, 1..=16))
        .prop_map(|(ty, spec, fill, mut target, accs)| {
            let fixed = matches!(spec.kind, Kind::FR | Kind::FC | Kind::FRV | Kind::FCV);
            if fixed && matches!(target, Target::ReadOnly) || !alg_fixed(&spec) {
                target = Target::Plain
            }
            Case { ty, spec, fill, target, accs }
        })
        .boxed()
}

fn check(c: &Case, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    o.label(match c.target {
        Target::Plain => "on-stored",
        Target::ReadOnly => "on-read-only",
        Target::Ref(_) => "on-reference",
        Target::RefMut(_) => "on-mutable-reference",
        Target::Scaled(_) | Target::Scaled2(_) => "on-scalar-product",
        Target::Sum(_) => "on-sum",
        Target::User | Target::UserMut => "on-user-implementation",
    });
    with_ty!(c.ty, T => run::<T>(c, o))
}

struct Ctx<'a, T: Sc> {
    c: &'a Case,
    model: &'a Model<T>,
    refused: usize,
    granted: usize,
    inside: bool,
}

impl<'a, T: Sc> Ctx<'a, T> {
    fn pair(&self, a: &Acc) -> (usize, usize) {
        let s = &self.c.spec;
        (a.a.at(s.rows, s.sr), a.b.at(s.cols, s.sc))
    }
    fn note(&mut self, ok: bool, pos: Option<usize>) {
        if ok {
            self.granted += 1
        } else {
            self.refused += 1;
            // refused although the position lies inside the storage
            if pos.is_some_and(|p| p < self.c.spec.clen) {
                self.inside = true
            }
        }
    }
    fn where_(&self, what: &str) -> String {
        format!("{} {:?}: {what}", self.c.spec.describe(), self.c.target)
    }
    /// element reads through `m`, whose element (r, c) should be want(model element)
    fn read(&mut self, m: &dyn View<T>, a: &Acc, want: &dyn Fn(T) -> T) -> Res {
        let s = &self.c.spec;
        let sh = s.shape();
        match a.op {
            Op::Pair | Op::PairMut => {
                let (r, k) = self.pair(a);
                let ok = sh.valid(r, k);
                self.note(ok, s.sr.checked_mul(r).and_then(|x| s.sc.checked_mul(k).and_then(|y| x.checked_add(y))));
                if ok {
                    let (g, w) = (m.rd(r, k), want(self.model.at(r, k)));
                    ensure!(g.same(w), "{} is {} instead of {}", self.where_(&format!("get({r},{k})")), show(g), show(w));
                } else {
                    ensure!(refuses(|| m.rd(r, k)), "{}", self.where_(&format!("get({r},{k}) was not refused")));
                }
            }
            _ => {
                let i = a.a.at(sh.n(), 1);
                self.note(i < sh.n(), Some(i));
                if i < sh.n() {
                    let (g, w) = (m.get1(i), want(self.model.at1(i)));
                    ensure!(g.same(w), "{} is {} instead of {}", self.where_(&format!("get1d({i})")), show(g), show(w));
                } else {
                    ensure!(refuses(|| m.get1(i)), "{}", self.where_(&format!("get1d({i}) was not refused")));
                }
            }
        }
        Ok(())
    }
    fn slice(&mut self, m: &dyn Held<T>, a: &Acc) -> Res {
        let s = &self.c.spec;
        let (lo, hi) = (a.a.at(s.clen, 1), a.b.at(s.clen + 1, 1));
        if lo == hi {
            return Ok(());
        }
        let ok = lo < hi && hi <= s.clen;
        self.note(ok, Some(lo));
        if ok {
            let g = m.slice(lo, hi);
            ensure!(g.len() == hi - lo, "{}", self.where_(&format!("get_slice({lo},{hi}) has {} items", g.len())));
            for (i, x) in g.iter().enumerate() {
                ensure!(x.same(self.model.buf[s.off + lo + i]), "{}", self.where_(&format!("get_slice({lo},{hi})[{i}] is {}", show(*x))));
            }
        } else {
            ensure!(refuses(|| m.slice(lo, hi).len()), "{}", self.where_(&format!("get_slice({lo},{hi}) of {} items was not refused", s.clen)));
        }
        Ok(())
    }
    /// accesses through mutable paths: the reference must be to the right element; nothing is changed
    fn write(&mut self, m: &mut dyn ViewMut<T>, a: &Acc) -> Res {
        let s = &self.c.spec;
        let sh = s.shape();
        match a.op {
            Op::PairMut => {
                let (r, k) = self.pair(a);
                let ok = sh.valid(r, k);
                self.note(ok, s.sr.checked_mul(r).and_then(|x| s.sc.checked_mul(k).and_then(|y| x.checked_add(y))));
                if ok {
                    let (g, w) = (*m.at_mut(r, k), self.model.at(r, k));
                    ensure!(g.same(w), "{} is {} instead of {}", self.where_(&format!("get_mut({r},{k})")), show(g), show(w));
                } else {
                    ensure!(refuses(|| *m.at_mut(r, k) = T::mk(77.0, 7.0)), "{}", self.where_(&format!("get_mut({r},{k}) was not refused")));
                }
                Ok(())
            }
            Op::LinearMut => {
                let i = a.a.at(sh.n(), 1);
                self.note(i < sh.n(), Some(i));
                if i < sh.n() {
                    let (g, w) = (*m.at1_mut(i), self.model.at1(i));
                    ensure!(g.same(w), "{} is {} instead of {}", self.where_(&format!("get1d_mut({i})")), show(g), show(w));
                } else {
                    ensure!(refuses(|| *m.at1_mut(i) = T::mk(77.0, 7.0)), "{}", self.where_(&format!("get1d_mut({i}) was not refused")));
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn slice_mut(&mut self, m: &mut dyn Stored<T>, a: &Acc) -> Res {
        let s = &self.c.spec;
        let (lo, hi) = (a.a.at(s.clen, 1), a.b.at(s.clen + 1, 1));
        if lo == hi {
            return Ok(());
        }
        let ok = lo < hi && hi <= s.clen;
        self.note(ok, Some(lo));
        if ok {
            let g = m.slice_mut(lo, hi);
            ensure!(g.len() == hi - lo, "{}", self.where_(&format!("get_slice_mut({lo},{hi}) has {} items", g.len())));
            for (i, x) in g.iter().enumerate() {
                ensure!(x.same(self.model.buf[s.off + lo + i]), "{}", self.where_(&format!("get_slice_mut({lo},{hi})[{i}] is {}", show(*x))));
            }
        } else {
            ensure!(refuses(|| m.slice_mut(lo, hi).len()), "{}", self.where_(&format!("get_slice_mut({lo},{hi}) of {} items was not refused", s.clen)));
        }
        Ok(())
    }
}

fn run<T: Sc>(c: &Case, o: &mut Obs) -> Res {
    let model = Model::<T>::new(&c.spec, c.fill, 0);
    let mut buf = model.buf.clone();
    let mut x = Ctx { c, model: &model, refused: 0, granted: 0, inside: false };
    let (s1, s2) = (T::mk(3.0, -2.0), T::mk(0.5, 4.0));
    let mut res = Ok(());
    let id = |v: T| v;
    match c.target {
        Target::Plain => with_stored::<T>(&c.spec, &mut buf, &mut |m| {
            res = c.accs.iter().try_for_each(|a| match a.op {
                Op::Pair | Op::Linear => x.read(m, a, &id),
                Op::PairMut | Op::LinearMut => x.write(m, a),
                Op::Slice => x.slice(m, a),
                Op::SliceMut => x.slice_mut(m, a),
            })
        }),
        Target::ReadOnly => {
            let copy = buf.clone();
            with_ro::<T>(&c.spec, &copy, &mut |m| {
                res = c.accs.iter().try_for_each(|a| match a.op {
                    Op::Slice | Op::SliceMut => x.slice(m, a),
                    _ => x.read(m, a, &id),
                })
            });
            buf.copy_from_slice(&copy);
        }
        Target::Ref(d) => with_alg::<T>(&c.spec, &mut buf, &mut |m| m.wrap(d as usize, &mut |v| res = c.accs.iter().try_for_each(|a| x.read(v, a, &id)))),
        Target::RefMut(d) => with_stored::<T>(&c.spec, &mut buf, &mut |m| {
            m.wrap_mut(d as usize, &mut |v| {
                res = c.accs.iter().try_for_each(|a| match a.op {
                    Op::PairMut | Op::LinearMut => x.write(v, a),
                    _ => x.read(v, a, &id),
                })
            })
        }),
        Target::Scaled(f) => with_alg::<T>(&c.spec, &mut buf, &mut |m| {
            m.scaled(s1, f as usize, &mut |v| res = c.accs.iter().try_for_each(|a| x.read(v, a, &|e| s1.rmul(e))))
        }),
        Target::Scaled2(f) => with_alg::<T>(&c.spec, &mut buf, &mut |m| {
            m.scaled2(s1, s2, f as usize, &mut |v| res = c.accs.iter().try_for_each(|a| x.read(v, a, &|e| s1.rmul(s2.rmul(e)))))
        }),
        Target::Sum(f) => with_alg::<T>(&c.spec, &mut buf, &mut |m| {
            m.doubled(f as usize, &mut |v| res = c.accs.iter().try_for_each(|a| x.read(v, a, &|e| e.radd(e))))
        }),
        Target::User | Target::UserMut => with_user::<T>(&c.spec, &buf.clone(), &mut |m| {
            res = c.accs.iter().try_for_each(|a| match a.op {
                Op::PairMut | Op::LinearMut if matches!(c.target, Target::UserMut) => x.write(m, a),
                _ => x.read(m, a, &id),
            })
        }),
    }
    res?;
    if x.refused > 0 {
        o.hit();
        o.label("refused");
    }
    o.label_if(x.granted > 0, "granted");
    o.label_if(x.inside, "refused-position-inside-storage");
    model.check_buf(&buf)
}

pub fn c04() -> Vec<Sub> {
    vec![sub("bounds", 400_000, 12_000_000, cases, check), sub("bounds_large", 1_600, 20_000, big_cases, check),
        sub("bounds_huge", 8, 300, huge_cases, check),]
}
