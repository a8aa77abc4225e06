//! Matrix products: operands of every storage over caller memory, dispatch, and the reference product.
use crate::engine::{fail, Res};
use crate::mats::*;
use crate::scal::{elem, show, Fill, Sc, Ty};
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type Ro<'a, T, L, RS = Dynamic, CS = Dynamic> = SliceMatrix<'a, T, L, RS, CS>;
pub type Rw<'a, T, L, RS = Dynamic, CS = Dynamic> = SliceMatrixMut<'a, T, L, RS, CS>;
type SRMl = ArbitraryStrideRowMajor;
type SCMl = ArbitraryStrideColumnMajor;

/// A read-only dynamic matrix of any strided layout.
pub enum AnyRo<'a, T: Sc> {
    RM(Ro<'a, T, RowMajor>),
    CM(Ro<'a, T, ColumnMajor>),
    SRM(Ro<'a, T, SRMl>),
    SCM(Ro<'a, T, SCMl>),
    RVD(Ro<'a, T, RowVector>),
    CVD(Ro<'a, T, ColumnVector>),
}
/// A writable one.
pub enum AnyRw<'a, T: Sc> {
    RM(Rw<'a, T, RowMajor>),
    CM(Rw<'a, T, ColumnMajor>),
    SRM(Rw<'a, T, SRMl>),
    SCM(Rw<'a, T, SCMl>),
    RVD(Rw<'a, T, RowVector>),
    CVD(Rw<'a, T, ColumnVector>),
}

fn ro<'a, T: Sc, L: MkLayout, RS: SizeIdentifier, CS: SizeIdentifier>(s: &MSpec, buf: &'a [T]) -> Ro<'a, T, L, RS, CS> {
    Ro::<T, L, RS, CS>::from_data(SliceContainer::new(&buf[s.off..s.off + s.clen]), L::mk(s))
}
fn rw<'a, T: Sc, L: MkLayout, RS: SizeIdentifier, CS: SizeIdentifier>(s: &MSpec, buf: &'a mut [T]) -> Rw<'a, T, L, RS, CS> {
    Rw::<T, L, RS, CS>::from_data(SliceContainerMut::new(&mut buf[s.off..s.off + s.clen]), L::mk(s))
}
/// A block borrows the parent matrix object, but its data is the caller's buffer, which lives for 'a.
unsafe fn outlive<'a, T: Sc, L: LayoutType>(m: Ro<'_, T, L>) -> Ro<'a, T, L> {
    std::mem::transmute(m)
}
unsafe fn outlive_mut<'a, T: Sc, L: LayoutType>(m: Rw<'_, T, L>) -> Rw<'a, T, L> {
    std::mem::transmute(m)
}

#[macro_export]
macro_rules! any_ro {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            $crate::mul::AnyRo::RM($x) => $e,
            $crate::mul::AnyRo::CM($x) => $e,
            $crate::mul::AnyRo::SRM($x) => $e,
            $crate::mul::AnyRo::SCM($x) => $e,
            $crate::mul::AnyRo::RVD($x) => $e,
            $crate::mul::AnyRo::CVD($x) => $e,
        }
    };
}
#[macro_export]
macro_rules! any_rw {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            $crate::mul::AnyRw::RM($x) => $e,
            $crate::mul::AnyRw::CM($x) => $e,
            $crate::mul::AnyRw::SRM($x) => $e,
            $crate::mul::AnyRw::SCM($x) => $e,
            $crate::mul::AnyRw::RVD($x) => $e,
            $crate::mul::AnyRw::CVD($x) => $e,
        }
    };
}

impl<'a, T: Sc> AnyRo<'a, T> {
    /// The matrix `s` over `buf`.
    pub fn new(s: &MSpec, buf: &'a [T]) -> Self {
        let p = || unsafe { buf.as_ptr().add(s.off) };
        let d = (s.rows, s.cols);
        match (s.kind, s.store) {
            (Kind::RM, Store::Ptr) => AnyRo::RM(unsafe { Ro::<T, RowMajor>::from_pointer(p(), d) }),
            (Kind::CM, Store::Ptr) => AnyRo::CM(unsafe { Ro::<T, ColumnMajor>::from_pointer(p(), d) }),
            (Kind::SRM, Store::Ptr) => AnyRo::SRM(unsafe { Ro::<T, SRMl>::from_pointer(p(), d, (s.sr, s.sc)) }),
            (Kind::SCM, Store::Ptr) => AnyRo::SCM(unsafe { Ro::<T, SCMl>::from_pointer(p(), d, (s.sr, s.sc)) }),
            (Kind::SRM, Store::Block) => {
                let q = Ro::<T, RowMajor>::from_data(SliceContainer::new(buf), RowMajor::new(s.pdim));
                AnyRo::SRM(unsafe { outlive(q.block((s.top, s.left), d)) })
            }
            (Kind::SCM, Store::Block) => {
                let q = Ro::<T, ColumnMajor>::from_data(SliceContainer::new(buf), ColumnMajor::new(s.pdim));
                AnyRo::SCM(unsafe { outlive(q.block((s.top, s.left), d)) })
            }
            (Kind::RM, _) => AnyRo::RM(ro(s, buf)),
            (Kind::CM, _) => AnyRo::CM(ro(s, buf)),
            (Kind::SRM, _) => AnyRo::SRM(ro(s, buf)),
            (Kind::SCM, _) => AnyRo::SCM(ro(s, buf)),
            (Kind::RVD, _) => AnyRo::RVD(ro(s, buf)),
            (Kind::CVD, _) => AnyRo::CVD(ro(s, buf)),
            k => panic!("no operand {k:?}"),
        }
    }
    pub fn block<'b>(&'b self, tl: (usize, usize), d: (usize, usize)) -> AnyRo<'b, T> {
        match self {
            AnyRo::RM(m) => AnyRo::SRM(m.block(tl, d)),
            AnyRo::SRM(m) => AnyRo::SRM(m.block(tl, d)),
            AnyRo::CM(m) => AnyRo::SCM(m.block(tl, d)),
            AnyRo::SCM(m) => AnyRo::SCM(m.block(tl, d)),
            _ => panic!("no blocks of vector layouts"),
        }
    }
    pub fn view(&self) -> &dyn View<T> {
        any_ro!(self, m => m)
    }
}
impl<'a, T: Sc> AnyRw<'a, T> {
    pub fn new(s: &MSpec, buf: &'a mut [T]) -> Self {
        let d = (s.rows, s.cols);
        let off = s.off;
        let p = |b: &mut [T]| unsafe { b.as_mut_ptr().add(off) };
        match (s.kind, s.store) {
            (Kind::RM, Store::Ptr) => AnyRw::RM(unsafe { Rw::<T, RowMajor>::from_pointer(p(buf), d) }),
            (Kind::CM, Store::Ptr) => AnyRw::CM(unsafe { Rw::<T, ColumnMajor>::from_pointer(p(buf), d) }),
            (Kind::SRM, Store::Ptr) => AnyRw::SRM(unsafe { Rw::<T, SRMl>::from_pointer(p(buf), d, (s.sr, s.sc)) }),
            (Kind::SCM, Store::Ptr) => AnyRw::SCM(unsafe { Rw::<T, SCMl>::from_pointer(p(buf), d, (s.sr, s.sc)) }),
            (Kind::SRM, Store::Block) => {
                let mut q = Rw::<T, RowMajor>::from_data(SliceContainerMut::new(buf), RowMajor::new(s.pdim));
                AnyRw::SRM(unsafe { outlive_mut(q.block_mut((s.top, s.left), d)) })
            }
            (Kind::SCM, Store::Block) => {
                let mut q = Rw::<T, ColumnMajor>::from_data(SliceContainerMut::new(buf), ColumnMajor::new(s.pdim));
                AnyRw::SCM(unsafe { outlive_mut(q.block_mut((s.top, s.left), d)) })
            }
            (Kind::RM, _) => AnyRw::RM(rw(s, buf)),
            (Kind::CM, _) => AnyRw::CM(rw(s, buf)),
            (Kind::SRM, _) => AnyRw::SRM(rw(s, buf)),
            (Kind::SCM, _) => AnyRw::SCM(rw(s, buf)),
            (Kind::RVD, _) => AnyRw::RVD(rw(s, buf)),
            (Kind::CVD, _) => AnyRw::CVD(rw(s, buf)),
            k => panic!("no result {k:?}"),
        }
    }
    pub fn block<'b>(&'b mut self, tl: (usize, usize), d: (usize, usize)) -> AnyRw<'b, T> {
        match self {
            AnyRw::RM(m) => AnyRw::SRM(m.block_mut(tl, d)),
            AnyRw::SRM(m) => AnyRw::SRM(m.block_mut(tl, d)),
            AnyRw::CM(m) => AnyRw::SCM(m.block_mut(tl, d)),
            AnyRw::SCM(m) => AnyRw::SCM(m.block_mut(tl, d)),
            _ => panic!("no blocks of vector layouts"),
        }
    }
    pub fn view(&self) -> &dyn View<T> {
        any_rw!(self, m => m)
    }
}

/// C <- alpha A B + beta C for dynamic matrices of any storage.
pub fn mm<T: Sc>(alpha: T, a: &AnyRo<T>, b: &AnyRo<T>, beta: T, c: &mut AnyRw<T>) {
    any_ro!(a, a => any_ro!(b, b => any_rw!(c, c => T::mm(alpha, a, b, beta, c))))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Form {
    MatMat,
    MatVec,
    VecMat,
}

/// Matrix x column vector, with the vectors stored densely, strided, or as one-column matrices.
fn mv<T: Sc>(alpha: T, a: &MSpec, ab: &[T], b: &MSpec, bb: &[T], beta: T, c: &MSpec, cb: &mut [T]) {
    type D = Dynamic;
    type F = Fixed1;
    let a = AnyRo::new(a, ab);
    macro_rules! with_b {
        ($bv:ident => $e:expr) => {
            match b.kind {
                Kind::CV => { let $bv = ro::<T, ColumnVector, D, F>(b, bb); $e }
                Kind::SCV => { let $bv = ro::<T, ArbitraryStrideColumnVector, D, F>(b, bb); $e }
                Kind::RM => { let $bv = ro::<T, RowMajor, D, F>(b, bb); $e }
                Kind::SCM => { let $bv = ro::<T, SCMl, D, F>(b, bb); $e }
                k => panic!("{k:?}"),
            }
        };
    }
    macro_rules! with_a {
        ($av:ident => $e:expr) => {
            match &a {
                AnyRo::RM($av) => $e,
                AnyRo::CM($av) => $e,
                AnyRo::SRM($av) => $e,
                AnyRo::SCM($av) => $e,
                _ => panic!(),
            }
        };
    }
    match c.kind {
        Kind::CV => { let mut c = rw::<T, ColumnVector, D, F>(c, cb); with_b!(b => with_a!(a => T::mv(alpha, a, &b, beta, &mut c))) }
        Kind::SCV => { let mut c = rw::<T, ArbitraryStrideColumnVector, D, F>(c, cb); with_b!(b => with_a!(a => T::mv(alpha, a, &b, beta, &mut c))) }
        Kind::CM => { let mut c = rw::<T, ColumnMajor, D, F>(c, cb); with_b!(b => with_a!(a => T::mv(alpha, a, &b, beta, &mut c))) }
        k => panic!("{k:?}"),
    }
}
/// Row vector x matrix.
fn vm<T: Sc>(alpha: T, a: &MSpec, ab: &[T], b: &MSpec, bb: &[T], beta: T, c: &MSpec, cb: &mut [T]) {
    type D = Dynamic;
    type F = Fixed1;
    let b = AnyRo::new(b, bb);
    macro_rules! with_a {
        ($av:ident => $e:expr) => {
            match a.kind {
                Kind::RV => { let $av = ro::<T, RowVector, F, D>(a, ab); $e }
                Kind::SRV => { let $av = ro::<T, ArbitraryStrideRowVector, F, D>(a, ab); $e }
                Kind::CM => { let $av = ro::<T, ColumnMajor, F, D>(a, ab); $e }
                Kind::SRM => { let $av = ro::<T, SRMl, F, D>(a, ab); $e }
                k => panic!("{k:?}"),
            }
        };
    }
    macro_rules! with_b {
        ($bv:ident => $e:expr) => {
            match &b {
                AnyRo::RM($bv) => $e,
                AnyRo::CM($bv) => $e,
                AnyRo::SRM($bv) => $e,
                AnyRo::SCM($bv) => $e,
                _ => panic!(),
            }
        };
    }
    match c.kind {
        Kind::RV => { let mut c = rw::<T, RowVector, F, D>(c, cb); with_a!(a => with_b!(b => T::vm(alpha, &a, b, beta, &mut c))) }
        Kind::SRV => { let mut c = rw::<T, ArbitraryStrideRowVector, F, D>(c, cb); with_a!(a => with_b!(b => T::vm(alpha, &a, b, beta, &mut c))) }
        Kind::RM => { let mut c = rw::<T, RowMajor, F, D>(c, cb); with_a!(a => with_b!(b => T::vm(alpha, &a, b, beta, &mut c))) }
        k => panic!("{k:?}"),
    }
}

/// The library's product of the given form over three buffers (A and B may be the same one).
pub fn run<T: Sc>(form: Form, alpha: T, a: &MSpec, ab: &[T], b: &MSpec, bb: &[T], beta: T, c: &MSpec, cb: &mut [T]) {
    match form {
        Form::MatMat => mm(alpha, &AnyRo::new(a, ab), &AnyRo::new(b, bb), beta, &mut AnyRw::new(c, cb)),
        Form::MatVec => mv(alpha, a, ab, b, bb, beta, c, cb),
        Form::VecMat => vm(alpha, a, ab, b, bb, beta, c, cb),
    }
}

// ---------------------------------------------------------------------------------------------------------

/// The two scalar factors.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fac {
    Zero,
    One,
    MinusOne,
    /// small integers (complex where possible)
    Int(u8),
    /// anything else
    Any(Fill),
}
impl Fac {
    pub fn value<T: Sc>(self) -> T {
        match self {
            Fac::Zero => T::mk(0.0, 0.0),
            Fac::One => T::mk(1.0, 0.0),
            Fac::MinusOne => T::mk(-1.0, 0.0),
            Fac::Int(i) => T::mk((i % 7) as f64 - 3.0, (i / 7 % 7) as f64 - 3.0),
            Fac::Any(f) => elem(f, 9, 3),
        }
    }
    pub fn exact(self) -> bool {
        !matches!(self, Fac::Any(f) if !matches!(f, Fill::Ints(_)))
    }
}
pub fn fac() -> BoxedStrategy<Fac> {
    prop_oneof![
        2 => Just(Fac::Zero),
        3 => Just(Fac::One),
        1 => Just(Fac::MinusOne),
        3 => any::<u8>().prop_map(Fac::Int),
    ]
    .boxed()
}
pub fn fac_any() -> BoxedStrategy<Fac> {
    prop_oneof![3 => fac(), 3 => any::<u64>().prop_map(|s| Fac::Any(Fill::Unit(s))), 1 => any::<u64>().prop_map(|s| Fac::Any(Fill::Wide(s)))].boxed()
}

/// alpha*A*B + beta*C at (i, j) with the sum of absolute values of all terms.
pub struct RefProd {
    pub re: f64,
    pub im: f64,
    pub mag: f64,
}
pub fn reference<T: Sc>(alpha: T, a: &dyn Fn(usize, usize) -> T, b: &dyn Fn(usize, usize) -> T, k: usize, beta: T, c: T, i: usize, j: usize) -> RefProd {
    let (mut re, mut im, mut mag) = (0.0f64, 0.0f64, 0.0f64);
    for l in 0..k {
        let ((ar, ai), (br, bi)) = (a(i, l).parts(), b(l, j).parts());
        re += ar * br - ai * bi;
        im += ar * bi + ai * br;
        mag += (ar.abs() + ai.abs()) * (br.abs() + bi.abs());
    }
    let ((pr, pi), (qr, qi), (cr, ci)) = (alpha.parts(), beta.parts(), c.parts());
    RefProd {
        re: (pr * re - pi * im) + (qr * cr - qi * ci),
        im: (pr * im + pi * re) + (qr * ci + qi * cr),
        mag: (pr.abs() + pi.abs()) * mag + (qr.abs() + qi.abs()) * (cr.abs() + ci.abs()),
    }
}
impl RefProd {
    /// `None` if `v` is within the rounding error bound (or equal, if `exact`).
    pub fn wrong<T: Sc>(&self, v: T, k: usize, exact: bool) -> Option<String> {
        let (r, i) = v.parts();
        let tol = if exact {
            0.0
        } else {
            // gamma_(k+2) for the library's arithmetic, once more for the reference's, and a factor for complex
            // products; plus underflow
            8.0 * (k as f64 + 4.0) * T::U * self.mag + if T::SINGLE { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE }
        };
        let ok = (r - self.re).abs() <= tol && (i - self.im).abs() <= tol;
        if ok {
            None
        } else {
            Some(format!("{} should be ({:?}, {:?}) within {:e}", show(v), self.re, self.im, tol))
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// generation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prod {
    pub ty: Ty,
    pub form: Form,
    pub a: MSpec,
    pub b: MSpec,
    pub c: MSpec,
    /// B is A itself
    pub alias: bool,
    /// A and B lie in one buffer
    #[serde(default)]
    pub near: Option<Near>,
    pub fill: Fill,
    pub cfill: Fill,
    pub alpha: Fac,
    pub beta: Fac,
}

/// Two read-only operands in one buffer: they may lie side by side, overlap, or be the same memory read differently.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Near {
    /// position of B's first element relative to A's
    pub delta: i64,
    /// C's memory: this many items after (or before) theirs, in the same buffer
    pub gap: u8,
    pub cfirst: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct NearGen {
    how: u8,
    rel: u8,
    small: i64,
    gap: u8,
    cfirst: bool,
}
pub fn near_gen() -> BoxedStrategy<NearGen> {
    (0u8..10, 0u8..3, -6i64..=6, 0u8..=3, any::<bool>()).prop_map(|(how, rel, small, gap, cfirst)| NearGen { how, rel, small, gap, cfirst }).boxed()
}
impl NearGen {
    /// (for users that want the second operand to be shaped like the first)
    pub fn twin(self) -> bool {
        self.rel == 1
    }
    /// Place B relative to A; for matrix-matrix products B may take A's strides (another block of the same matrix)
    /// or A's strides swapped (the same or another block transposed).
    pub fn place(self, form: Form, a: &MSpec, b: &mut MSpec) -> Near {
        let strided = |k: Kind| matches!(k, Kind::RM | Kind::CM | Kind::SRM | Kind::SCM);
        if form == Form::MatMat && self.rel > 0 && strided(a.kind) && b.n() > 0 {
            let mut t = b.clone();
            let rowwise = matches!(a.kind, Kind::RM | Kind::SRM);
            let (k, sr, sc) = if self.rel == 1 { (rowwise, a.sr, a.sc) } else { (!rowwise, a.sc, a.sr) };
            t.kind = if k { Kind::SRM } else { Kind::SCM };
            (t.sr, t.sc) = (sr, sc);
            t.store = Store::Ptr;
            t.off = 0;
            t.clen = t.extent();
            t.total = t.extent();
            if t.extent() >= t.n() && t.extent() <= 400_000 {
                *b = t;
            }
        }
        let (m, k, n) = (a.rows as i64, a.cols as i64, b.cols as i64);
        let (sr, sc) = (a.sr as i64, a.sc as i64);
        let delta = match self.how {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => k * sc,
            4 => m * sr,
            5 => -(n * b.sc as i64),
            6 => -(b.rows as i64 * b.sr as i64),
            7 => sr * (self.small % 2) + sc * (self.small % 3),
            8 => a.extent() as i64,
            _ => self.small,
        };
        Near { delta, gap: self.gap, cfirst: self.cfirst }
    }
}
/// Offsets of A's and B's buffers in the common one, and its length.
pub fn near_offsets(a: &MSpec, b: &MSpec, delta: i64) -> (usize, usize, usize) {
    // pb + b.off = pa + a.off + delta
    let d = a.off as i64 + delta - b.off as i64;
    let (pa, pb) = if d >= 0 { (0, d as usize) } else { ((-d) as usize, 0) };
    (pa, pb, (pa + a.total).max(pb + b.total))
}
pub fn near_models<T: Sc>(a: &MSpec, b: &MSpec, delta: i64, fill: Fill) -> (Model<T>, Model<T>) {
    let (pa, pb, len) = near_offsets(a, b, delta);
    let v: Vec<T> = (0..len).map(|i| elem(fill, 0, i)).collect();
    (Model { spec: a.clone(), buf: v[pa..pa + a.total].to_vec() }, Model { spec: b.clone(), buf: v[pb..pb + b.total].to_vec() })
}
/// The common buffer from its two parts.
pub fn near_join<T: Sc>(a: &Model<T>, b: &Model<T>, delta: i64) -> Vec<T> {
    let (pa, pb, len) = near_offsets(&a.spec, &b.spec, delta);
    let mut v = vec![T::mk(0.0, 0.0); len];
    v[pa..pa + a.spec.total].copy_from_slice(&a.buf);
    v[pb..pb + b.spec.total].copy_from_slice(&b.buf);
    v
}
impl Prod {
    pub fn exact(&self) -> bool {
        matches!(self.fill, Fill::Ints(_)) && matches!(self.cfill, Fill::Ints(_)) && self.alpha.exact() && self.beta.exact()
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?} {:?} alpha {:?} beta {:?}: A {}, B {}{}, C {}",
            self.form, self.ty, self.alpha, self.beta, self.a.describe(), self.b.describe(), if self.alias { " (the same matrix as A)".into() } else { self.near.map_or(String::new(), |n| format!(" (in one buffer, {} items from A)", n.delta)) }, self.c.describe()
        )
    }
}

fn dim_mul() -> BoxedStrategy<usize> {
    prop_oneof![
        5 => 1usize..=9,
        2 => Just(1usize),
        1 => Just(0usize),
        2 => 10usize..=40,
        1 => prop::sample::select(vec![7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66]),
    ]
    .boxed()
}
pub fn dims_mul() -> BoxedStrategy<(usize, usize, usize)> {
    (dim_mul(), dim_mul(), dim_mul()).boxed()
}
pub fn dims_mul_big() -> BoxedStrategy<(usize, usize, usize)> {
    let big = || prop_oneof![prop::sample::select(vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1023, 1024, 1025, 1100])];
    let small = || prop_oneof![1usize..=20];
    let pos = || prop_oneof![2 => small().boxed(), 3 => big().boxed()];
    let blocky = (pos(), pos(), pos()).boxed();
    // one very long dimension
    let thin = (prop_oneof![1025usize..=9000, 30_000usize..=70_000, prop::sample::select(vec![4095usize, 4096, 4097, 32767, 32768, 65535, 65536, 65537])], 1usize..=4, 1usize..=4, 0u8..3)
        .prop_map(|(l, x, y, which)| match which {
            0 => (l, x, y),
            1 => (x, l, y),
            _ => (x, y, l),
        })
        .boxed();
    prop_oneof![6 => blocky, 1 => thin]
        .prop_map(|(mut m, mut k, mut n)| {
            // bounded work: shrink the dimensions in turn
            let mut i = m + k + n;
            while m * k * n > 1_500_000 {
                match i % 3 {
                    0 => m = (m / 2).max(3),
                    1 => k = (k / 2).max(3),
                    _ => n = (n / 2).max(3),
                }
                i += 1;
            }
            (m, k, n)
        })
        .boxed()
}

fn kinds_for(r: usize, c: usize) -> Vec<Kind> {
    let mut v = vec![Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::SRM, Kind::SCM];
    if r == 1 {
        v.extend([Kind::RVD, Kind::RVD]);
    }
    if c == 1 {
        v.extend([Kind::CVD, Kind::CVD]);
    }
    v
}

/// Operands of the given form and dimensions: A is d[0], B is d[1], C is d[2].
pub fn operands(form: Form, d: [(usize, usize); 3]) -> BoxedStrategy<(MSpec, MSpec, MSpec)> {
    let one = move |ks: Vec<Kind>, d: (usize, usize), o: GenOpts| {
        let ks = Just(ks).prop_flat_map(prop::sample::select);
        ks.prop_flat_map(move |k| spec_for(k, d, o)).boxed()
    };
    let plain = |mut s: MSpec| {
        // these kinds are always built over a slice
        if matches!(s.store, Store::Ptr | Store::Block) {
            let need = s.extent().max(s.n());
            s.store = Store::Slice;
            s.off = s.off.min(4);
            s.clen = need;
            s.total = s.off + need + 3;
        }
        s
    };
    let mats = vec![Kind::RM, Kind::CM, Kind::SRM, Kind::SCM];
    let (a, b, c) = match form {
        Form::MatMat => (
            one(kinds_for(d[0].0, d[0].1), d[0], ANY),
            one(kinds_for(d[1].0, d[1].1), d[1], ANY),
            one(kinds_for(d[2].0, d[2].1), d[2], INJ),
        ),
        Form::MatVec => (
            one(mats, d[0], ANY),
            one(vec![Kind::CV, Kind::SCV, Kind::SCV, Kind::RM, Kind::SCM], d[1], ANY).prop_map(plain).boxed(),
            one(vec![Kind::CV, Kind::SCV, Kind::SCV, Kind::CM], d[2], INJ).prop_map(plain).boxed(),
        ),
        Form::VecMat => (
            one(vec![Kind::RV, Kind::SRV, Kind::SRV, Kind::CM, Kind::SRM], d[0], ANY).prop_map(plain).boxed(),
            one(mats, d[1], ANY),
            one(vec![Kind::RV, Kind::SRV, Kind::SRV, Kind::RM], d[2], INJ).prop_map(plain).boxed(),
        ),
    };
    (a, b, c).boxed()
}
pub fn form() -> BoxedStrategy<Form> {
    prop::sample::select(vec![Form::MatMat, Form::MatMat, Form::MatMat, Form::MatVec, Form::VecMat]).boxed()
}
pub fn int_fill() -> BoxedStrategy<Fill> {
    any::<u64>().prop_map(Fill::Ints).boxed()
}
pub fn float_fill() -> BoxedStrategy<Fill> {
    prop_oneof![3 => any::<u64>().prop_map(Fill::Unit), 1 => any::<u64>().prop_map(Fill::Wide), 1 => int_fill()].boxed()
}

pub fn prods(d: BoxedStrategy<(usize, usize, usize)>, exact: bool) -> BoxedStrategy<Prod> {
    let t = crate::mats::ty();
    (t, form(), d, 0u8..10, near_gen(), any::<bool>())
        .prop_flat_map(move |(ty, form, (mut m, k, mut n), al, ng, square)| {
            let mut k = k;
            match form {
                Form::MatVec => n = 1,
                Form::VecMat => m = 1,
                _ => {}
            }
            let alias = form == Form::MatMat && al == 0;
            if alias {
                m = m.min(k).min(n);
                k = m;
                n = m;
            }
            let near = if al == 1 || al == 2 { Some(ng) } else { None };
            if near.is_some() && square && form == Form::MatMat {
                n = m.min(n);
                m = n;
            }
            let (f, s) = if exact { (int_fill(), fac()) } else { (float_fill(), fac_any()) };
            let cf = if exact { int_fill() } else { float_fill() };
            (Just(ty), Just(form), operands(form, [(m, k), (k, n), (m, n)]), (Just(alias), Just(near)), f, cf, s.clone(), s)
        })
        .prop_map(|(ty, form, (a, b, c), (alias, near), fill, cfill, alpha, beta)| {
            let mut b = if alias { a.clone() } else { b };
            let near = near.map(|g| g.place(form, &a, &mut b));
            Prod { ty, form, a, b, c, alias, near, fill, cfill, alpha, beta }
        })
        .boxed()
}

/// Models of the three buffers.
pub fn models<T: Sc>(p: &Prod) -> [Model<T>; 3] {
    if let Some(n) = p.near {
        let (a, b) = near_models(&p.a, &p.b, n.delta, p.fill);
        return [a, b, Model::new(&p.c, p.cfill, 2)];
    }
    let a = Model::new(&p.a, p.fill, 0);
    let b = if p.alias { Model { spec: p.b.clone(), buf: a.buf.clone() } } else { Model::new(&p.b, p.fill, 1) };
    [a, b, Model::new(&p.c, p.cfill, 2)]
}

/// Run the product; returns the final buffers.
pub fn execute<T: Sc>(p: &Prod, m: &[Model<T>; 3]) -> [Vec<T>; 3] {
    if let Some(n) = p.near {
        let ro = near_join(&m[0], &m[1], n.delta);
        let (pa, pb, _) = near_offsets(&p.a, &p.b, n.delta);
        // the memory of the result before or after that of the operands, in one allocation
        let gap = vec![T::mk(0.0, 0.0); n.gap as usize];
        let mut all = if n.cfirst { [&m[2].buf[..], &gap, &ro].concat() } else { [&ro[..], &gap, &m[2].buf].concat() };
        let (ops, cb) = if n.cfirst {
            let (c, r) = all.split_at_mut(p.c.total);
            (&mut r[gap.len()..], c)
        } else {
            let (r, c) = all.split_at_mut(ro.len() + gap.len());
            (&mut r[..ro.len()], c)
        };
        run(p.form, p.alpha.value(), &p.a, &ops[pa..pa + p.a.total], &p.b, &ops[pb..pb + p.b.total], p.beta.value(), &p.c, cb);
        return [ops[pa..pa + p.a.total].to_vec(), ops[pb..pb + p.b.total].to_vec(), cb.to_vec()];
    }
    let (ab, bb, mut cb) = (m[0].buf.clone(), m[1].buf.clone(), m[2].buf.clone());
    let second: &[T] = if p.alias { &ab } else { &bb };
    run(p.form, p.alpha.value(), &p.a, &ab, &p.b, second, p.beta.value(), &p.c, &mut cb);
    [ab, bb, cb]
}

/// Elements of C against the reference.
pub fn check_values<T: Sc>(p: &Prod, m: &[Model<T>; 3], cbuf: &[T]) -> Res {
    let (alpha, beta): (T, T) = (p.alpha.value(), p.beta.value());
    let k = p.a.cols;
    let exact = p.exact();
    for i in 0..p.c.rows {
        for j in 0..p.c.cols {
            let r = reference(alpha, &|i, j| m[0].at(i, j), &|i, j| m[1].at(i, j), k, beta, m[2].at(i, j), i, j);
            if let Some(e) = r.wrong(cbuf[p.c.pos(i, j)], k, exact) {
                return fail(format!("{}: element ({i},{j}) of the result is {e}", p.describe()));
            }
        }
    }
    Ok(())
}
/// Everything but the elements of C.
pub fn check_frame<T: Sc>(p: &Prod, m: &[Model<T>; 3], bufs: &[Vec<T>; 3]) -> Res {
    m[0].check_buf(&bufs[0]).map_err(|mut f| { f.msg = format!("operand A changed: {} in {}", f.msg, p.describe()); f })?;
    m[1].check_buf(&bufs[1]).map_err(|mut f| { f.msg = format!("operand B changed: {} in {}", f.msg, p.describe()); f })?;
    let mut want = m[2].clone();
    for i in 0..p.c.rows {
        for j in 0..p.c.cols {
            let q = p.c.pos(i, j);
            want.buf[q] = bufs[2][q];
        }
    }
    want.check_buf(&bufs[2]).map_err(|mut f| { f.msg = format!("memory around the result changed: {} in {}", f.msg, p.describe()); f })
}
