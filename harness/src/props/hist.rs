//! Histories of mixed operations on a handful of matrices, against a model of their values (used by C25 and C26).
use householder::*;
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::user::*;

/// A lazy expression that owns its operands, with its type hidden.
pub trait Obj<T> {
    unsafe fn u2(&self, r: usize, c: usize) -> T;
    unsafe fn u1(&self, i: usize) -> T;
}
impl<T: Sc, I: MatrixTrait<T, L, Dynamic, Dynamic>, L: LayoutType> Obj<T> for Matrix<T, I, L, Dynamic, Dynamic> {
    unsafe fn u2(&self, r: usize, c: usize) -> T {
        self.get_unchecked(r, c)
    }
    unsafe fn u1(&self, i: usize) -> T {
        self.get1d_unchecked(i)
    }
}
pub struct Hidden<T, B> {
    inner: Box<dyn Obj<T>>,
    layout: B,
}
impl<T: Sc, B: LayoutType> UnsafeRandomAccess for Hidden<T, B> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        self.inner.u2(r, c)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.inner.u1(i)
    }
}
impl<T, B: LayoutType> Layout for Hidden<T, B> {
    type Impl = B;
    fn layout(&self) -> &B {
        &self.layout
    }
}
impl<T, B> SizeType for Hidden<T, B> {
    type R = Dynamic;
    type C = Dynamic;
}
type E<T, B> = Matrix<T, Hidden<T, B>, B, Dynamic, Dynamic>;
fn hide<T: Sc, I: MatrixTrait<T, L, Dynamic, Dynamic> + 'static, L: LayoutType + 'static>(m: Matrix<T, I, L, Dynamic, Dynamic>) -> E<T, L::IndexLayout> {
    let layout = m.layout().index_layout();
    Matrix::new(Hidden { inner: Box::new(m), layout })
}

pub enum Slot<T: Sc> {
    Empty,
    R(MatrixD<T, RowMajor>),
    C(MatrixD<T, ColumnMajor>),
    U(UpperTriangularMatrix<T>),
    V(ColumnVectorD<T>),
    H(RowVectorD<T>),
    X(E<T, RowMajor>),
    Y(E<T, ColumnMajor>),
}
use Slot::*;

#[derive(Clone)]
pub struct Val<T> {
    r: usize,
    c: usize,
    v: Vec<T>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    New { s: u8, k: u8, r: u8, c: u8, z: u32 },
    Put { s: u8, i: u32, z: u32 },
    /// d = x*a + y*b, over references or moving a and b, evaluated or kept lazy
    Sum { d: u8, a: u8, b: u8, z: u32, moved: bool, lazy: bool },
    Scale { d: u8, a: u8, z: u32, moved: bool, lazy: bool },
    Eval { d: u8, a: u8 },
    Mul { c: u8, a: u8, b: u8, z: u32 },
    Dot { d: u8, a: u8, b: u8 },
    Block { d: u8, a: u8, p: (u8, u8), q: (u8, u8) },
    BlockWrite { a: u8, p: (u8, u8), q: (u8, u8), z: u32 },
    Split { a: u8, p: (u8, u8), z: u32 },
    Each { a: u8, z: u32 },
    Random { a: u8, z: u32 },
    Swap { a: u8, b: u8 },
    Drop { a: u8 },
    /// an access or operation that is refused
    Refuse { a: u8, b: u8, w: u8 },
    Read { a: u8, i: u32 },
    /// a visit whose closure panics at element k; the matrix may belong to the closure
    EachFault { a: u8, k: u8, z: u32, owned: bool },
    /// a random generator that panics at its k-th draw
    FillFault { a: u8, k: u8, z: u32 },
    /// an evaluation with an operand that panics at its k-th read, and then again without the fault
    EvalFault { d: u8, a: u8, k: u8, z: u32, owned: bool },
    /// small fixed-size matrices come and go
    Fixed { z: u32 },
}
pub const SLOTS: u8 = 5;
pub fn op() -> BoxedStrategy<Op> {
    let s = || 0..SLOTS;
    let z = || any::<u32>();
    let p = || (0u8..6, 0u8..6);
    let b = || any::<bool>();
    prop_oneof![
        8 => (s(), 0u8..7, 0u8..=5, 0u8..=5, z()).prop_map(|(s, k, r, c, z)| Op::New { s, k, r, c, z }),
        3 => (s(), z(), z()).prop_map(|(s, i, z)| Op::Put { s, i, z }),
        6 => (s(), s(), s(), z(), b(), b()).prop_map(|(d, a, b, z, moved, lazy)| Op::Sum { d, a, b, z, moved, lazy }),
        3 => (s(), s(), z(), b(), b()).prop_map(|(d, a, z, moved, lazy)| Op::Scale { d, a, z, moved, lazy }),
        2 => (s(), s()).prop_map(|(d, a)| Op::Eval { d, a }),
        5 => (s(), s(), s(), z()).prop_map(|(c, a, b, z)| Op::Mul { c, a, b, z }),
        3 => (s(), s(), s()).prop_map(|(d, a, b)| Op::Dot { d, a, b }),
        2 => (s(), s(), p(), p()).prop_map(|(d, a, p, q)| Op::Block { d, a, p, q }),
        2 => (s(), p(), p(), z()).prop_map(|(a, p, q, z)| Op::BlockWrite { a, p, q, z }),
        2 => (s(), p(), z()).prop_map(|(a, p, z)| Op::Split { a, p, z }),
        2 => (s(), z()).prop_map(|(a, z)| Op::Each { a, z }),
        1 => (s(), z()).prop_map(|(a, z)| Op::Random { a, z }),
        2 => (s(), s()).prop_map(|(a, b)| Op::Swap { a, b }),
        2 => s().prop_map(|a| Op::Drop { a }),
        2 => (s(), s(), 0u8..6).prop_map(|(a, b, w)| Op::Refuse { a, b, w }),
        3 => (s(), z()).prop_map(|(a, i)| Op::Read { a, i }),
        1 => z().prop_map(|z| Op::Fixed { z }),
        1 => fault(),
    ]
    .boxed()
}
pub fn fault() -> BoxedStrategy<Op> {
    let s = || 0..SLOTS;
    let k = || prop_oneof![3 => 0u8..6, 1 => 0u8..30];
    prop_oneof![
        (s(), k(), any::<u32>(), any::<bool>()).prop_map(|(a, k, z, owned)| Op::EachFault { a, k, z, owned: owned && z % 4 == 0 }),
        (s(), k(), any::<u32>()).prop_map(|(a, k, z)| Op::FillFault { a, k, z }),
        (s(), s(), k(), any::<u32>(), any::<bool>()).prop_map(|(d, a, k, z, owned)| Op::EvalFault { d, a, k, z, owned: owned && z % 4 == 0 }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub ty: Ty,
    /// all new matrices have this dimension where it is given, so that more operations apply
    pub dim: Option<(u8, u8)>,
    pub ops: Vec<Op>,
}
pub fn hist(n: usize) -> BoxedStrategy<Hist> {
    hist_of(n, op())
}
pub fn hist_of(n: usize, op: BoxedStrategy<Op>) -> BoxedStrategy<Hist> {
    let d = prop_oneof![2 => Just(None), 3 => (1u8..=5).prop_map(|n| Some((n, n))), 1 => (0u8..=5, 0u8..=5).prop_map(Some)];
    // some matrices to begin with, often of one kind
    let k = prop_oneof![Just(0u8..7), Just(0u8..2), Just(2u8..4), Just(0u8..4), Just(4u8..5), Just(0u8..6)];
    let start = k.prop_flat_map(|k| prop::collection::vec((k, 0u8..=5, 0u8..=5, any::<u32>()), 0..=SLOTS as usize));
    (ty(), d, start, prop::collection::vec((op, any::<u8>()), n / 3..=n))
        .prop_map(|(ty, dim, start, ops)| {
            let mut all: Vec<Op> = start.into_iter().enumerate().map(|(s, (k, r, c, z))| Op::New { s: s as u8, k, r, c, z: z | 1 }).collect();
            for (op, again) in ops {
                // sometimes the same request as before, after whatever happened in between
                let back = 1 + again as usize % 6;
                all.push(if again >= 160 && all.len() >= back { all[all.len() - back] } else { op });
            }
            Hist { ty, dim, ops: all }
        })
        .boxed()
}

/// dot exists for f64 only.
pub trait Hs: Sc {
    fn dots(_a: &Slot<Self>, _b: &Slot<Self>) -> Option<Slot<Self>> {
        None
    }
}
impl Hs for f32 {}
impl Hs for types::c32 {}
impl Hs for types::c64 {}
impl Hs for f64 {
    fn dots(a: &Slot<f64>, b: &Slot<f64>) -> Option<Slot<f64>> {
        Some(match (a, b) {
            (R(a), R(b)) => R(a.dot(b)),
            (R(a), C(b)) => R(a.dot(b)),
            (C(a), R(b)) => R(a.dot(b)),
            (C(a), C(b)) => R(a.dot(b)),
            (R(a), V(b)) => V(a.dot(b)),
            (C(a), V(b)) => V(a.dot(b)),
            (H(a), R(b)) => H(a.dot(b)),
            (H(a), C(b)) => H(a.dot(b)),
            _ => return None,
        })
    }
}

/// A generator that panics at a given draw.
#[derive(Clone)]
pub struct FlakyRng {
    pub g: rand::rngs::StdRng,
    pub left: Option<usize>,
}
impl FlakyRng {
    fn tick(&mut self) {
        match self.left {
            Some(0) => std::panic::panic_any(Boom(0)),
            k => self.left = k.map(|k| k - 1),
        }
    }
}
impl rand::RngCore for FlakyRng {
    fn next_u32(&mut self) -> u32 {
        self.tick();
        self.g.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        self.g.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.tick();
        self.g.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub fn small<T: Sc>(z: u32, i: usize) -> T {
    let h = mix(z as u64, i as u64);
    T::mk((h % 7) as f64 - 3.0, (h / 7 % 7) as f64 - 3.0)
}
fn show_op(i: usize, op: &Op) -> String {
    format!("step {i} {op:?}")
}

pub struct World<T: Hs> {
    pub s: Vec<Slot<T>>,
    m: Vec<Val<T>>,
    pub done: u32,
    pub faults: u32,
    pub kinds: u32,
    dim: Option<(u8, u8)>,
}

/// Every slot that is a matrix.
macro_rules! each_kind {
    ($s:expr, $m:ident => $e:expr, else $o:expr) => {
        match $s { R($m) => $e, C($m) => $e, U($m) => $e, V($m) => $e, H($m) => $e, X($m) => $e, Y($m) => $e, Empty => $o }
    };
}
macro_rules! each_base {
    ($s:expr, $m:ident => $e:expr, else $o:expr) => {
        match $s { R($m) => $e, C($m) => $e, U($m) => $e, V($m) => $e, H($m) => $e, _ => $o }
    };
}

impl<T: Hs> World<T> {
    pub fn new(dim: Option<(u8, u8)>) -> Self {
        World { s: (0..SLOTS).map(|_| Empty).collect(), m: vec![Val { r: 0, c: 0, v: vec![] }; SLOTS as usize], done: 0, faults: 0, kinds: 0, dim }
    }
    fn order(&self, i: usize) -> Order {
        match self.s[i] {
            C(_) | Y(_) => Order::Col,
            U(_) => Order::Upper,
            _ => Order::Row,
        }
    }
    fn shape(&self, i: usize) -> Shape {
        Shape { order: self.order(i), rows: self.m[i].r, cols: self.m[i].c }
    }
    fn check(&self, i: usize, what: &dyn Fn() -> String) -> Res {
        let (sh, m) = (self.shape(i), &self.m[i]);
        each_kind!(&self.s[i], x => {
            ensure!(View::dim(x) == (m.r, m.c) && x.nelems() == sh.n(), "{}: slot {i} has dimension {:?} and {} elements, should be {:?} and {}",
                what(), View::dim(x), x.nelems(), (m.r, m.c), sh.n());
            for k in 0..sh.n() {
                let (r, c) = sh.at(k);
                let w = m.v[r * m.c + c];
                let (a, b) = (x.rd(r, c), x.get1(k));
                ensure!(a == w && b == w, "{}: element ({r},{c}) of slot {i} is {} by position and {} by number, should be {}", what(), show(a), show(b), show(w));
            }
        }, else {});
        Ok(())
    }
    fn set(&mut self, d: usize, s: Slot<T>, v: Val<T>) {
        self.s[d] = s;
        self.m[d] = v;
    }
    fn val(&self, i: usize, f: impl Fn(T) -> T) -> Val<T> {
        let m = &self.m[i];
        Val { r: m.r, c: m.c, v: m.v.iter().map(|x| f(*x)).collect() }
    }
    /// Keeps values in the range where every operation is exact.
    fn tame(&mut self, i: usize) {
        let big = |x: &T| {
            let (a, b) = x.parts();
            !(a.abs() <= 60.0 && b.abs() <= 60.0)
        };
        let sh = self.shape(i);
        if self.m[i].v.iter().any(big) {
            if matches!(self.s[i], X(_) | Y(_)) {
                self.s[i] = Empty;
                self.m[i] = Val { r: 0, c: 0, v: vec![] };
                return;
            }
            let cols = self.m[i].c;
            for k in 0..sh.n() {
                let (r, c) = sh.at(k);
                let v = small(9, k);
                each_base!(&mut self.s[i], m => *m.get_mut(r, c) = v, else {});
                self.m[i].v[r * cols + c] = v;
            }
        }
    }
    fn prod(&self, a: usize, b: usize) -> Val<T> {
        let (a, b) = (&self.m[a], &self.m[b]);
        let mut v = vec![T::mk(0.0, 0.0); a.r * b.c];
        for r in 0..a.r {
            for c in 0..b.c {
                for k in 0..a.c {
                    v[r * b.c + c] = v[r * b.c + c].radd(a.v[r * a.c + k].rmul(b.v[k * b.c + c]));
                }
            }
        }
        Val { r: a.r, c: b.c, v }
    }
    pub fn step(&mut self, n: usize, op: &Op) -> Res {
        let what = || show_op(n, op);
        let took = self.apply(op, &what)?;
        if took {
            self.done += 1;
        }
        Ok(())
    }
    fn apply(&mut self, op: &Op, what: &dyn Fn() -> String) -> Result<bool, Fail> {
        let mut touched = vec![];
        match *op {
            Op::New { s, k, r, c, z } => {
                let (mut r, mut c) = (r as usize, c as usize);
                if let Some(d) = self.dim {
                    (r, c) = (d.0 as usize, d.1 as usize);
                }
                let (slot, r, c) = match k {
                    0 | 1 => (R(MatrixD::zeros_from_dim(r, c)), r, c),
                    2 | 3 => (C(MatrixD::zeros_from_dim(r, c)), r, c),
                    4 => (U(UpperTriangularMatrix::zeros_from_dim(r, r)), r, r),
                    5 => (V(ColumnVectorD::zeros_from_length(r)), r, 1),
                    _ => (H(RowVectorD::zeros_from_length(c)), 1, c),
                };
                let s = s as usize;
                self.kinds |= 1 << k;
                self.set(s, slot, Val { r, c, v: vec![T::mk(0.0, 0.0); r * c] });
                self.check(s, &|| format!("{}: new matrix", what()))?;
                let sh = self.shape(s);
                if z % 4 != 0 {
                    for i in 0..sh.n() {
                        let (r, k) = sh.at(i);
                        let v = small(z, i);
                        each_base!(&mut self.s[s], m => *m.get_mut(r, k) = v, else {});
                        self.m[s].v[r * c + k] = v;
                    }
                }
                touched.push(s);
            }
            Op::Put { s, i, z } => {
                let s = s as usize;
                let sh = self.shape(s);
                if sh.n() == 0 {
                    return Ok(false);
                }
                let i = i as usize % sh.n();
                let (r, c) = sh.at(i);
                let v = small(z, 1);
                each_base!(&mut self.s[s], m => if z & 64 == 0 { *m.get_mut(r, c) = v } else { *m.get1d_mut(i) = v }, else return Ok(false));
                let w = self.m[s].c;
                self.m[s].v[r * w + c] = v;
                touched.push(s);
            }
            Op::Sum { d, a, b, z, moved, lazy } => {
                let (d, a, b) = (d as usize, a as usize, b as usize);
                let (x, y) = (small::<T>(z, 1), small::<T>(z, 2));
                if moved && a == b {
                    return Ok(false);
                }
                let fits = (self.m[a].r, self.m[a].c) == (self.m[b].r, self.m[b].c);
                let v = if fits {
                    Val { r: self.m[a].r, c: self.m[a].c, v: self.m[a].v.iter().zip(&self.m[b].v).map(|(p, q)| x.rmul(*p).radd(y.rmul(*q))).collect() }
                } else {
                    Val { r: 0, c: 0, v: vec![] }
                };
                let compatible = matches!((&self.s[a], &self.s[b]), (R(_) | X(_), R(_) | X(_)) | (C(_) | Y(_), C(_) | Y(_)) | (U(_), U(_)) | (V(_), V(_)) | (H(_), H(_)));
                if !compatible || (lazy && !moved) {
                    return Ok(false);
                }
                // the sum of two of one kind, over values or references
                macro_rules! moved_sum {
                    ($p:ident, $q:ident, $L:ident, $M:ident) => {{
                        let e = T::s_m(x, $p) + T::m_s($q, y);
                        if lazy { $L(hide(e)) } else { $M(e.eval()) }
                    }};
                }
                if moved {
                    let (p, q) = (std::mem::replace(&mut self.s[a], Empty), std::mem::replace(&mut self.s[b], Empty));
                    for i in [a, b] {
                        self.m[i] = Val { r: 0, c: 0, v: vec![] };
                    }
                    let mut out = Empty;
                    let ok = !refuses(|| {
                        out = match (p, q) {
                            (R(p), R(q)) => moved_sum!(p, q, X, R),
                            (R(p), X(q)) => moved_sum!(p, q, X, R),
                            (X(p), R(q)) => moved_sum!(p, q, X, R),
                            (X(p), X(q)) => moved_sum!(p, q, X, R),
                            (C(p), C(q)) => moved_sum!(p, q, Y, C),
                            (C(p), Y(q)) => moved_sum!(p, q, Y, C),
                            (Y(p), C(q)) => moved_sum!(p, q, Y, C),
                            (Y(p), Y(q)) => moved_sum!(p, q, Y, C),
                            (U(p), U(q)) => U((T::s_m(x, p) + T::m_s(q, y)).eval()),
                            // no evaluation for vectors: the expression is read and dropped
                            (V(p), V(q)) => {
                                let e = T::s_m(x, p) + T::m_s(q, y);
                                let mut o = ColumnVectorD::zeros_from_length(e.dim().0);
                                (0..e.dim().0).for_each(|i| *o.get_mut(i, 0) = e.get(i, 0));
                                V(o)
                            }
                            (H(p), H(q)) => {
                                let e = T::s_m(x, p) + T::m_s(q, y);
                                let mut o = RowVectorD::zeros_from_length(e.dim().1);
                                (0..e.dim().1).for_each(|i| *o.get1d_mut(i) = e.get1d(i));
                                H(o)
                            }
                            _ => Empty,
                        };
                    });
                    ensure!(ok == fits, "{}: a sum of {} dimensions is {}", what(), if fits { "equal" } else { "different" }, if ok { "accepted" } else { "refused" });
                    if !ok {
                        return Ok(true);
                    }
                    self.set(d, out, v);
                } else {
                    macro_rules! ref_sum {
                        ($p:ident, $q:ident, $M:ident) => {
                            $M((T::s_rm(x, $p) + T::rm_s($q, y)).eval())
                        };
                    }
                    let mut out = Empty;
                    let (sa, sb) = (&self.s[a], &self.s[b]);
                    let ok = !refuses(|| {
                        out = match (sa, sb) {
                            (R(p), R(q)) => ref_sum!(p, q, R),
                            (R(p), X(q)) => ref_sum!(p, q, R),
                            (X(p), R(q)) => ref_sum!(p, q, R),
                            (X(p), X(q)) => ref_sum!(p, q, R),
                            (C(p), C(q)) => ref_sum!(p, q, C),
                            (C(p), Y(q)) => ref_sum!(p, q, C),
                            (Y(p), C(q)) => ref_sum!(p, q, C),
                            (Y(p), Y(q)) => ref_sum!(p, q, C),
                            (U(p), U(q)) => ref_sum!(p, q, U),
                            (V(p), V(q)) => {
                                let e = T::s_rm(x, p) + T::rm_s(q, y);
                                let mut o = ColumnVectorD::zeros_from_length(e.dim().0);
                                (0..e.dim().0).for_each(|i| *o.get_mut(i, 0) = e.get(i, 0));
                                V(o)
                            }
                            (H(p), H(q)) => {
                                let e = T::s_rm(x, p) + T::rm_s(q, y);
                                let mut o = RowVectorD::zeros_from_length(e.dim().1);
                                (0..e.dim().1).for_each(|i| *o.get1d_mut(i) = e.get1d(i));
                                H(o)
                            }
                            _ => Empty,
                        };
                    });
                    ensure!(ok == fits, "{}: a sum of {} dimensions is {}", what(), if fits { "equal" } else { "different" }, if ok { "accepted" } else { "refused" });
                    if !ok {
                        return Ok(true);
                    }
                    self.set(d, out, v);
                }
                touched.push(d);
            }
            Op::Scale { d, a, z, moved, lazy } => {
                let (d, a) = (d as usize, a as usize);
                let x = small::<T>(z, 1);
                if matches!(self.s[a], Empty | V(_) | H(_)) || (lazy && (!moved || matches!(self.s[a], U(_)))) {
                    return Ok(false);
                }
                let v = self.val(a, |p| x.rmul(p));
                let out = if moved {
                    let p = std::mem::replace(&mut self.s[a], Empty);
                    self.m[a] = Val { r: 0, c: 0, v: vec![] };
                    macro_rules! go {
                        ($p:ident, $L:ident, $M:ident) => {
                            if lazy { $L(hide(T::s_m(x, $p))) } else { $M(T::m_s($p, x).eval()) }
                        };
                    }
                    match p {
                        R(p) => go!(p, X, R),
                        X(p) => go!(p, X, R),
                        C(p) => go!(p, Y, C),
                        Y(p) => go!(p, Y, C),
                        U(p) => U(T::s_m(x, p).eval()),
                        _ => Empty,
                    }
                } else {
                    match &self.s[a] {
                        R(p) => R(T::s_rm(x, p).eval()),
                        X(p) => R(T::rm_s(p, x).eval()),
                        C(p) => C(T::rm_s(p, x).eval()),
                        Y(p) => C(T::s_rm(x, p).eval()),
                        U(p) => U(T::s_rm(x, p).eval()),
                        _ => Empty,
                    }
                };
                self.set(d, out, v);
                touched.push(d);
            }
            Op::Eval { d, a } => {
                let (d, a) = (d as usize, a as usize);
                let out = match &self.s[a] {
                    R(p) => R(p.eval()),
                    X(p) => R(p.eval()),
                    C(p) => C(p.eval()),
                    Y(p) => C(p.eval()),
                    U(p) => U(p.eval()),
                    _ => return Ok(false),
                };
                let v = self.m[a].clone();
                self.set(d, out, v);
                touched.push(d);
            }
            Op::Mul { c, a, b, z } => {
                let (c, a, b) = (c as usize, a as usize, b as usize);
                if c == a || c == b {
                    return Ok(false);
                }
                let (x, y) = (small::<T>(z, 1), small::<T>(z, 2));
                let mut out = std::mem::replace(&mut self.s[c], Empty);
                let (sa, sb) = (&self.s[a], &self.s[b]);
                let mut applies = true;
                let ok = !refuses(|| {
                    macro_rules! mm {
                        ($p:ident, $q:ident, $f:ident, $o:ident) => {
                            T::$f(x, $p, $q, y, $o)
                        };
                    }
                    match (sa, sb, &mut out) {
                        (R(p), R(q), R(o)) => mm!(p, q, mm, o),
                        (R(p), C(q), R(o)) => mm!(p, q, mm, o),
                        (C(p), R(q), R(o)) => mm!(p, q, mm, o),
                        (C(p), C(q), R(o)) => mm!(p, q, mm, o),
                        (R(p), R(q), C(o)) => mm!(p, q, mm, o),
                        (R(p), C(q), C(o)) => mm!(p, q, mm, o),
                        (C(p), R(q), C(o)) => mm!(p, q, mm, o),
                        (C(p), C(q), C(o)) => mm!(p, q, mm, o),
                        (R(p), V(q), V(o)) => mm!(p, q, mv, o),
                        (C(p), V(q), V(o)) => mm!(p, q, mv, o),
                        (H(p), R(q), H(o)) => mm!(p, q, vm, o),
                        (H(p), C(q), H(o)) => mm!(p, q, vm, o),
                        _ => applies = false,
                    }
                });
                self.s[c] = out;
                if !applies {
                    return Ok(false);
                }
                let (ma, mb, mc) = (&self.m[a], &self.m[b], &self.m[c]);
                let fits = ma.c == mb.r && ma.r == mc.r && mb.c == mc.c;
                ensure!(ok == fits, "{}: a product {:?} x {:?} into {:?} is {}", what(), (ma.r, ma.c), (mb.r, mb.c), (mc.r, mc.c), if ok { "accepted" } else { "refused" });
                if ok {
                    let p = self.prod(a, b);
                    for (o, q) in self.m[c].v.iter_mut().zip(&p.v) {
                        *o = x.rmul(*q).radd(y.rmul(*o));
                    }
                }
                touched.extend([a, b, c]);
            }
            Op::Dot { d, a, b } => {
                let (d, a, b) = (d as usize, a as usize, b as usize);
                let (sa, sb) = (&self.s[a], &self.s[b]);
                let mut out = None;
                let ok = !refuses(|| out = T::dots(sa, sb));
                let fits = self.m[a].c == self.m[b].r;
                if ok {
                    let Some(o) = out else { return Ok(false) };
                    ensure!(fits, "{}: dot of {:?} and {:?} is accepted", what(), (self.m[a].r, self.m[a].c), (self.m[b].r, self.m[b].c));
                    let v = self.prod(a, b);
                    self.set(d, o, v);
                    touched.push(d);
                } else {
                    ensure!(!fits, "{}: dot of {:?} and {:?} is refused", what(), (self.m[a].r, self.m[a].c), (self.m[b].r, self.m[b].c));
                }
            }
            Op::Block { d, a, p, q } => {
                let (d, a) = (d as usize, a as usize);
                let (p, q) = self.window(a, p, q);
                let out = match &self.s[a] {
                    R(m) => R(m.block(p, q).eval()),
                    C(m) => C(m.block(p, q).eval()),
                    _ => return Ok(false),
                };
                let m = &self.m[a];
                let v = (0..q.0).flat_map(|r| (0..q.1).map(move |c| (r, c))).map(|(r, c)| m.v[(r + p.0) * m.c + c + p.1]).collect();
                self.set(d, out, Val { r: q.0, c: q.1, v });
                touched.push(d);
            }
            Op::BlockWrite { a, p, q, z } => {
                let a = a as usize;
                let (p, q) = self.window(a, p, q);
                let k = small::<T>(z, 3);
                match &mut self.s[a] {
                    R(m) => m.block_mut(p, q).for_each(|v| *v = v.radd(k)),
                    C(m) => m.block_mut(p, q).for_each(|v| *v = v.radd(k)),
                    _ => return Ok(false),
                }
                let w = self.m[a].c;
                for r in 0..q.0 {
                    for c in 0..q.1 {
                        let e = &mut self.m[a].v[(r + p.0) * w + c + p.1];
                        *e = e.radd(k);
                    }
                }
                touched.push(a);
            }
            Op::Split { a, p, z } => {
                let a = a as usize;
                let (p, _) = self.window(a, p, (0, 0));
                let R(m) = &mut self.s[a] else { return Ok(false) };
                let (rows, cols) = (self.m[a].r, self.m[a].c);
                let (mut b0, mut b1, mut b2, mut b3) = m.split_in_four_mut(p);
                let ks: Vec<T> = (0..4).map(|i| small(z, i)).collect();
                b0.for_each(|v| *v = ks[0]);
                b1.for_each(|v| *v = ks[1]);
                b2.for_each(|v| *v = ks[2]);
                b3.for_each(|v| *v = ks[3]);
                for r in 0..rows {
                    for c in 0..cols {
                        self.m[a].v[r * cols + c] = ks[(r >= p.0) as usize * 2 + (c >= p.1) as usize];
                    }
                }
                touched.push(a);
            }
            Op::Each { a, z } => {
                let a = a as usize;
                let sh = self.shape(a);
                let mut i = 0;
                each_base!(&mut self.s[a], m => m.for_each(|v| { *v = small(z, i); i += 1 }), else return Ok(false));
                ensure!(i == sh.n(), "{}: {i} visits of {} elements", what(), sh.n());
                let w = self.m[a].c;
                for k in 0..sh.n() {
                    let (r, c) = sh.at(k);
                    self.m[a].v[r * w + c] = small(z, k);
                }
                touched.push(a);
            }
            Op::Random { a, z } => {
                let a = a as usize;
                let sh = self.shape(a);
                let mut g = rand::rngs::StdRng::seed_from_u64(z as u64);
                let mut h = g.clone();
                each_base!(&mut self.s[a], m => T::fill_rng(m, &mut g), else return Ok(false));
                let w = self.m[a].c;
                for k in 0..sh.n() {
                    let (r, c) = sh.at(k);
                    self.m[a].v[r * w + c] = T::draw(&mut h);
                }
                self.check(a, what)?;
                // back to values with exact arithmetic
                each_base!(&mut self.s[a], m => m.for_each(|v| *v = small(z, 0)), else {});
                for k in 0..sh.n() {
                    let (r, c) = sh.at(k);
                    self.m[a].v[r * w + c] = small(z, 0);
                }
                touched.push(a);
            }
            Op::Swap { a, b } => {
                self.s.swap(a as usize, b as usize);
                self.m.swap(a as usize, b as usize);
                touched.extend([a as usize, b as usize]);
            }
            Op::Drop { a } => {
                let was = !matches!(self.s[a as usize], Empty);
                self.set(a as usize, Empty, Val { r: 0, c: 0, v: vec![] });
                return Ok(was);
            }
            Op::Refuse { a, b, w } => {
                let (a, b) = (a as usize, b as usize);
                let (r, c) = (self.m[a].r, self.m[a].c);
                let n = self.shape(a).n();
                let said = match w {
                    0 => each_kind!(&self.s[a], m => refuses(|| m.get(r, 0)), else return Ok(false)),
                    1 => each_kind!(&self.s[a], m => refuses(|| m.get1d(n)), else return Ok(false)),
                    2 => each_base!(&mut self.s[a], m => refuses(|| *m.get_mut(0, c) = small(1, 1)), else return Ok(false)),
                    3 => match &self.s[a] {
                        R(m) => refuses(|| m.block((r, 0), (1, 1)).dim()),
                        C(m) => refuses(|| m.block((0, c), (1, 1)).dim()),
                        _ => return Ok(false),
                    },
                    4 => match &mut self.s[a] {
                        R(m) => refuses(|| m.split_in_four_mut((r + 1, 0)).0.dim()),
                        _ => return Ok(false),
                    },
                    _ => {
                        // a sum with a lazy product of another dimension, by value: the temporary goes with it
                        let _ = b;
                        match &self.s[a] {
                            R(m) => refuses(|| (T::s_m(small(1, 1), MatrixD::<T, RowMajor>::zeros_from_dim(r + 1, c)) + m).eval().dim()),
                            C(m) => refuses(|| (T::s_m(small(1, 1), MatrixD::<T, ColumnMajor>::zeros_from_dim(r, c + 1)) + m).eval().dim()),
                            _ => return Ok(false),
                        }
                    }
                };
                ensure!(said, "{}: accepted for a matrix of dimension {:?}", what(), (r, c));
                touched.push(a);
            }
            Op::Read { a, i } => {
                let a = a as usize;
                let sh = self.shape(a);
                if sh.n() == 0 || matches!(self.s[a], Empty) {
                    return Ok(false);
                }
                let (r, c) = sh.at(i as usize % sh.n());
                let w = self.m[a].v[r * self.m[a].c + c];
                let g = each_kind!(&self.s[a], m => m.get(r, c), else w);
                ensure!(g == w, "{}: element ({r},{c}) is {}, should be {}", what(), show(g), show(w));
            }
            Op::EachFault { a, k, z, owned } => {
                let a = a as usize;
                let (k, sh) = (k as usize, self.shape(a));
                let mut i = 0;
                let mut f = |v: &mut T| {
                    if i == k {
                        std::panic::panic_any(Boom(k))
                    }
                    *v = small(z, i);
                    i += 1
                };
                let hit = if owned {
                    if matches!(self.s[a], Empty | X(_) | Y(_)) {
                        return Ok(false);
                    }
                    let mut own = std::mem::replace(&mut self.s[a], Empty);
                    self.m[a] = Val { r: 0, c: 0, v: vec![] };
                    boom(move || each_base!(&mut own, m => m.for_each(&mut f), else {}))
                } else {
                    boom(|| each_base!(&mut self.s[a], m => m.for_each(&mut f), else {}))
                };
                if matches!(self.s[a], X(_) | Y(_)) || sh.n() == 0 {
                    return Ok(false);
                }
                let want = if k < sh.n() { Some(k) } else { None };
                ensure!(hit == want, "{}: the visit of {} elements ended with fault {hit:?}, should be {want:?}", what(), sh.n());
                if !owned {
                    let w = self.m[a].c;
                    for i in 0..k.min(sh.n()) {
                        let (r, c) = sh.at(i);
                        self.m[a].v[r * w + c] = small(z, i);
                    }
                }
                self.faults += hit.is_some() as u32;
                touched.push(a);
            }
            Op::FillFault { a, k, z } => {
                let a = a as usize;
                let sh = self.shape(a);
                if matches!(self.s[a], Empty | X(_) | Y(_)) || sh.n() == 0 {
                    return Ok(false);
                }
                let mut g = FlakyRng { g: rand::rngs::StdRng::seed_from_u64(z as u64), left: Some(k as usize) };
                let mut h = FlakyRng { g: g.g.clone(), left: None };
                let hit = boom(|| each_base!(&mut self.s[a], m => T::fill_rng(m, &mut g), else {}));
                let w = self.m[a].c;
                for i in 0..sh.n() {
                    let (r, c) = sh.at(i);
                    let new = T::draw(&mut h);
                    let got = each_kind!(&self.s[a], m => m.rd(r, c), else new);
                    let old = self.m[a].v[r * w + c];
                    let ok = if hit.is_some() { got.same(new) || got == old } else { got.same(new) };
                    ensure!(ok, "{}: element ({r},{c}) is {}, was {}, its random value is {}", what(), show(got), show(old), show(new));
                    self.m[a].v[r * w + c] = got;
                }
                self.check(a, what)?;
                // back to values with exact arithmetic
                each_base!(&mut self.s[a], m => m.for_each(|v| *v = small(z, 0)), else {});
                for i in 0..sh.n() {
                    let (r, c) = sh.at(i);
                    self.m[a].v[r * w + c] = small(z, 0);
                }
                self.faults += hit.is_some() as u32;
                touched.push(a);
            }
            Op::EvalFault { d, a, k, z, owned } => {
                let (d, a) = (d as usize, a as usize);
                let sh = self.shape(a);
                let dim = (self.m[a].r, self.m[a].c);
                let left = std::rc::Rc::new(std::cell::Cell::new(Some(k as usize)));
                let (x, mut hit, mut out) = (small::<T>(z, 70), None, Empty);
                macro_rules! by_ref {
                    ($p:ident, $L:ident, $M:ident) => {{
                        let f: FlakyMat<T, $L> = Matrix::new(Flaky::new(small, z, $L::from_dimension(dim), &left));
                        let e = T::s_rm(x, $p) + &f;
                        hit = boom(|| out = $M(e.eval()));
                        if hit.is_some() {
                            left.set(None);
                            out = $M(e.eval());
                        }
                    }};
                }
                macro_rules! by_value {
                    ($p:ident, $L:ident, $M:ident) => {{
                        let f: FlakyMat<T, $L> = Matrix::new(Flaky::new(small, z, $L::from_dimension(dim), &left));
                        hit = boom(|| {
                            let e = T::s_m(x, $p) + f;
                            out = $M(e.eval())
                        });
                    }};
                }
                if owned {
                    let own = std::mem::replace(&mut self.s[a], Empty);
                    match own {
                        R(p) => by_value!(p, RowMajor, R),
                        C(p) => by_value!(p, ColumnMajor, C),
                        U(p) => by_value!(p, UpperTriangular, U),
                        X(p) => by_value!(p, RowMajor, R),
                        Y(p) => by_value!(p, ColumnMajor, C),
                        other => {
                            self.s[a] = other;
                            return Ok(false);
                        }
                    }
                } else {
                    match &self.s[a] {
                        R(p) => by_ref!(p, RowMajor, R),
                        C(p) => by_ref!(p, ColumnMajor, C),
                        U(p) => by_ref!(p, UpperTriangular, U),
                        X(p) => by_ref!(p, RowMajor, R),
                        Y(p) => by_ref!(p, ColumnMajor, C),
                        _ => return Ok(false),
                    }
                    self.check(a, &|| format!("{}: after the interrupted evaluation", what()))?;
                }
                let fits = (k as usize) < sh.n();
                ensure!(hit.is_some() == fits, "{}: an operand that panics at read {k} of {} ended the evaluation with {hit:?}", what(), sh.n());
                self.faults += hit.is_some() as u32;
                let mut v = self.val(a, |p| x.rmul(p));
                for i in 0..sh.n() {
                    let (r, c) = sh.at(i);
                    let e = &mut v.v[r * dim.1 + c];
                    *e = e.radd(small(z, i));
                }
                if owned {
                    self.m[a] = Val { r: 0, c: 0, v: vec![] };
                }
                if matches!(out, Empty) {
                    return Ok(true);
                }
                self.set(d, out, v);
                touched.push(d);
            }
            Op::Fixed { z } => {
                let mut a = Matrix23::<T, RowMajor>::zeros_from_dim();
                let mut b = Matrix32::<T, ColumnMajor>::zeros_from_dim();
                let mut i = 0;
                ensure!((0..6).all(|k| a.get1d(k) == T::mk(0.0, 0.0) && b.get1d(k) == T::mk(0.0, 0.0)), "{}: new fixed matrices are not zero", what());
                a.for_each(|v| { *v = small(z, i); i += 1 });
                b.for_each(|v| { *v = small(z, i); i += 1 });
                let e = T::s_rm(small(z, 99), &a) + &a;
                for k in 0..6 {
                    let w = small::<T>(z, 99).rmul(small(z, k)).radd(small(z, k));
                    ensure!(e.get1d(k) == w && e.get(k / 3, k % 3) == w, "{}: element {k} of a fixed sum is {}, should be {}", what(), show(e.get1d(k)), show(w));
                    ensure!(b.get(k % 3, k / 3) == small(z, 6 + k), "{}: element {k} of a fixed matrix changed", what());
                }
            }
        }
        for i in touched.clone() {
            self.check(i, what)?;
        }
        for i in touched {
            self.tame(i);
        }
        Ok(true)
    }
    fn window(&self, a: usize, p: (u8, u8), q: (u8, u8)) -> ((usize, usize), (usize, usize)) {
        let (r, c) = (self.m[a].r, self.m[a].c);
        let p = (p.0 as usize % (r + 1), p.1 as usize % (c + 1));
        (p, ((q.0 as usize) % (r - p.0 + 1), (q.1 as usize) % (c - p.1 + 1)))
    }
    pub fn check_all(&self, what: &str) -> Res {
        (0..SLOTS as usize).try_for_each(|i| self.check(i, &|| what.to_string()))
    }
}

/// Runs the whole history; returns the number of operations that applied.
pub fn play<T: Hs>(h: &Hist) -> Result<u32, Fail> {
    play_faults::<T>(h).map(|x| x.0)
}
/// ... and the number of faults that occurred.
pub fn play_faults<T: Hs>(h: &Hist) -> Result<(u32, u32), Fail> {
    let mut w = World::<T>::new(h.dim);
    for (i, op) in h.ops.iter().enumerate() {
        w.step(i, op)?;
    }
    w.check_all("at the end")?;
    Ok((w.done, w.faults))
}
