//! C29: scalars, matrix implementations and size markers defined by a user.
use householder::data_container::*;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::types::{c64, HScalar, Scalar};
use householder::*;
use num::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, SubAssign};
use std::ops::Sub as Minus;
use std::rc::Rc;
use vh::engine::*;
use vh::ensure;
use vh::mats::{gcd, Order, Shape};

type P = (usize, usize);

// --- scalars ------------------------------------------------------------------------------------------------------

/// A scalar whose values are integers (modulo a power of two, for the users' own).
pub trait Val: HScalar {
    fn mk(v: i64) -> Self;
    fn val(self) -> i64;
    fn red(v: i64) -> i64;
    /// scalar products exist for the library's scalars only
    fn scaled<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        _s: i64,
        _m: &Matrix<Self, I, L, RS, CS>,
        _right: bool,
        _f: &mut dyn FnMut(&dyn Vw<Self>),
    ) -> bool {
        false
    }
}
macro_rules! scaled {
    () => {
        fn red(v: i64) -> i64 {
            v
        }
        fn scaled<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            s: i64,
            m: &Matrix<Self, I, L, RS, CS>,
            right: bool,
            f: &mut dyn FnMut(&dyn Vw<Self>),
        ) -> bool {
            let s: Self = NumCast::from(s).unwrap();
            if right {
                f(&(m * s))
            } else {
                f(&(s * m))
            }
            true
        }
    };
}
impl Val for f64 {
    fn mk(v: i64) -> f64 {
        v as f64
    }
    fn val(self) -> i64 {
        self as i64
    }
    scaled!();
}
impl Val for c64 {
    fn mk(v: i64) -> c64 {
        c64::new(v as f64, -(v as f64))
    }
    fn val(self) -> i64 {
        assert!(self.im == -self.re, "imaginary part of {self}");
        self.re as i64
    }
    scaled!();
}

/// A user's scalar: integers in a representation of its own, in which zero is not all zero bytes.
macro_rules! own_scalar {
    ($N:ident, $Int:ty, $(#[$a:meta])* $Repr:ty, $enc:expr, $dec:expr) => {
        #[derive(Clone, Copy)]
        $(#[$a])*
        pub struct $N($Repr);
        impl Val for $N {
            fn mk(v: i64) -> Self {
                let f: fn($Int) -> $Repr = $enc;
                $N(f(v as $Int))
            }
            fn val(self) -> i64 {
                let f: fn($Repr) -> $Int = $dec;
                f(self.0) as i64
            }
            fn red(v: i64) -> i64 {
                v as $Int as i64
            }
        }
        impl PartialEq for $N {
            fn eq(&self, o: &Self) -> bool {
                self.val() == o.val()
            }
        }
        own_scalar!(@op $N, Add add AddAssign add_assign, |a, b| a.wrapping_add(b));
        own_scalar!(@op $N, Minus sub SubAssign sub_assign, |a, b| a.wrapping_sub(b));
        own_scalar!(@op $N, Mul mul MulAssign mul_assign, |a, b| a.wrapping_mul(b));
        own_scalar!(@op $N, Div div DivAssign div_assign, |a, b| if b == 0 { 0 } else { a.wrapping_div(b) });
        own_scalar!(@op $N, Rem rem RemAssign rem_assign, |a, b| if b == 0 { 0 } else { a.wrapping_rem(b) });
        impl Neg for $N {
            type Output = Self;
            fn neg(self) -> Self {
                Self::mk(self.val().wrapping_neg())
            }
        }
        impl Zero for $N {
            fn zero() -> Self {
                Self::mk(0)
            }
            fn is_zero(&self) -> bool {
                self.val() == 0
            }
        }
        impl One for $N {
            fn one() -> Self {
                Self::mk(1)
            }
        }
        impl Num for $N {
            type FromStrRadixErr = std::num::ParseIntError;
            fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
                i64::from_str_radix(s, r).map(Self::mk)
            }
        }
        impl ToPrimitive for $N {
            fn to_i64(&self) -> Option<i64> {
                Some(self.val())
            }
            fn to_u64(&self) -> Option<u64> {
                self.val().to_u64()
            }
            fn to_f64(&self) -> Option<f64> {
                Some(self.val() as f64)
            }
        }
        impl FromPrimitive for $N {
            fn from_i64(n: i64) -> Option<Self> {
                Some(Self::mk(n))
            }
            fn from_u64(n: u64) -> Option<Self> {
                Some(Self::mk(n as i64))
            }
            fn from_f64(n: f64) -> Option<Self> {
                Some(Self::mk(n as i64))
            }
        }
        impl NumCast for $N {
            fn from<X: ToPrimitive>(n: X) -> Option<Self> {
                n.to_i64().map(Self::mk)
            }
        }
        own_scalar!(@show $N Display Debug LowerExp UpperExp);
        impl std::iter::Sum for $N {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl std::iter::Product for $N {
            fn product<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::one(), |a, b| a * b)
            }
        }
        impl Serialize for $N {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_i64(self.val())
            }
        }
        impl<'de> Deserialize<'de> for $N {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                i64::deserialize(d).map(Self::mk)
            }
        }
        impl Scalar for $N {
            type Real = f64;
            type Complex = c64;
            fn real<X: ToPrimitive>(re: X) -> f64 {
                re.to_f64().unwrap()
            }
            fn complex<X: ToPrimitive>(re: X, im: X) -> c64 {
                c64::new(re.to_f64().unwrap(), im.to_f64().unwrap())
            }
            fn from_real(re: f64) -> Self {
                Self::mk(re as i64)
            }
            own_scalar!(@real add_real sub_real mul_real div_real);
            own_scalar!(@complex add_complex sub_complex mul_complex div_complex powc);
            own_scalar!(@map sqrt exp ln sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh);
            fn pow(self, _: Self) -> Self {
                unimplemented!()
            }
            fn powi(self, _: i32) -> Self {
                unimplemented!()
            }
            fn powf(self, _: f64) -> Self {
                unimplemented!()
            }
            fn re(&self) -> f64 {
                self.val() as f64
            }
            fn im(&self) -> f64 {
                0.0
            }
            fn as_c(&self) -> c64 {
                c64::new(self.val() as f64, 0.0)
            }
            fn conj(&self) -> Self {
                *self
            }
            fn abs(self) -> f64 {
                (self.val() as f64).abs()
            }
            fn square(self) -> f64 {
                (self.val() as f64).powi(2)
            }
            fn rand(rng: &mut impl rand::Rng) -> Self {
                Self::mk(rng.gen())
            }
        }
        impl HScalar for $N {
            type Real = f64;
            fn atan2(self, _: Self) -> Self {
                unimplemented!()
            }
        }
    };
    (@op $N:ident, $T:ident $f:ident $TA:ident $fa:ident, $e:expr) => {
        impl $T for $N {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let f: fn(i64, i64) -> i64 = $e;
                Self::mk(f(self.val(), o.val()))
            }
        }
        impl $TA for $N {
            fn $fa(&mut self, o: Self) {
                *self = $T::$f(*self, o)
            }
        }
    };
    (@show $N:ident $($T:ident)*) => { $(impl fmt::$T for $N {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.val())
        }
    })* };
    (@real $($f:ident)*) => { $(fn $f(self, _: f64) -> Self { unimplemented!() })* };
    (@complex $($f:ident)*) => { $(fn $f(self, _: c64) -> c64 { unimplemented!() })* };
    (@map $($f:ident)*) => { $(fn $f(self) -> Self { unimplemented!() })* };
}
const MASK: i64 = 0x5a3c_96f0_1e87_d24b;
own_scalar!(Tag, i64, i64, |v| v ^ MASK, |r| r ^ MASK);
own_scalar!(Tiny, i16, [u8; 2], |v| [!(v >> 8) as u8, !v as u8], |r| ((!r[0] as i16) << 8) | (!r[1] as i16 & 255));
own_scalar!(Odd, i32, [u8; 13], |v| {
    let mut r = [0xc3u8; 13];
    for (i, x) in v.to_be_bytes().iter().enumerate() {
        r[3 * i] = x ^ 0x81
    }
    r
}, |r| i32::from_be_bytes([r[0] ^ 0x81, r[3] ^ 0x81, r[6] ^ 0x81, r[9] ^ 0x81]));
own_scalar!(Wide, i64, #[repr(align(32))] (u32, [u16; 5], u32), |v| ((v >> 32) as u32 ^ 7, [9; 5], v as u32 ^ 11), |r| (((r.0 ^ 7) as i64) << 32) | (r.2 ^ 11) as i64);

macro_rules! with_val {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty % 6 {
            0 => { type $T = Tag; $e }
            1 => { type $T = Tiny; $e }
            2 => { type $T = Odd; $e }
            3 => { type $T = Wide; $e }
            4 => { type $T = f64; $e }
            _ => { type $T = c64; $e }
        }
    };
}
const TYPES: [&str; 6] = ["8-byte scalar", "2-byte scalar", "13-byte scalar", "32-byte aligned scalar", "f64", "c64"];

// --- size markers -------------------------------------------------------------------------------------------------

pub struct N4;
pub struct N5;
pub struct Some_;
impl SizeIdentifier for N4 {
    const N: usize = 4;
}
impl SizeIdentifier for N5 {
    const N: usize = 5;
}
/// a user's own marker for "determined at runtime"
impl SizeIdentifier for Some_ {
    const N: usize = 0;
}

// --- access through objects ---------------------------------------------------------------------------------------

pub trait Vw<T> {
    fn vdim(&self) -> P;
    fn vn(&self) -> usize;
    fn g2(&self, r: usize, c: usize) -> T;
    fn g1(&self, i: usize) -> T;
    unsafe fn u2(&self, r: usize, c: usize) -> T;
    unsafe fn u1(&self, i: usize) -> T;
    fn ns(&self) -> P;
}
impl<T: Val, I: MatrixTrait<T, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> Vw<T> for Matrix<T, I, L, RS, CS> {
    fn vdim(&self) -> P {
        self.dim()
    }
    fn vn(&self) -> usize {
        self.layout().number_of_elements()
    }
    fn g2(&self, r: usize, c: usize) -> T {
        self.get(r, c)
    }
    fn g1(&self, i: usize) -> T {
        self.get1d(i)
    }
    unsafe fn u2(&self, r: usize, c: usize) -> T {
        self.get_unchecked(r, c)
    }
    unsafe fn u1(&self, i: usize) -> T {
        self.get1d_unchecked(i)
    }
    fn ns(&self) -> P {
        (RS::N, CS::N)
    }
}
trait VwMut<T>: Vw<T> {
    fn m2(&mut self, r: usize, c: usize) -> &mut T;
    fn m1(&mut self, i: usize) -> &mut T;
    unsafe fn mu2(&mut self, r: usize, c: usize) -> &mut T;
    unsafe fn mu1(&mut self, i: usize) -> &mut T;
}
impl<T: Val, I: MatrixTraitMut<T, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> VwMut<T> for Matrix<T, I, L, RS, CS> {
    fn m2(&mut self, r: usize, c: usize) -> &mut T {
        self.get_mut(r, c)
    }
    fn m1(&mut self, i: usize) -> &mut T {
        self.get1d_mut(i)
    }
    unsafe fn mu2(&mut self, r: usize, c: usize) -> &mut T {
        self.get_unchecked_mut(r, c)
    }
    unsafe fn mu1(&mut self, i: usize) -> &mut T {
        self.get1d_unchecked_mut(i)
    }
}

// --- a user's matrix implementation ---------------------------------------------------------------------------------

#[derive(Default)]
struct Log {
    asked: Vec<(u8, usize)>,
    bad: Option<String>,
}
/// Every element has a place of its own; there is no storage in the library's sense. Notes what it is asked for.
struct Own<T, L, RS, CS> {
    id: u8,
    shape: Shape,
    layout: L,
    items: Vec<Box<T>>,
    log: Rc<RefCell<Log>>,
    p: PhantomData<(RS, CS)>,
}
impl<T: Val, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> Own<T, L, RS, CS> {
    fn new(id: u8, shape: Shape, layout: L, seed: u64, log: &Rc<RefCell<Log>>) -> Self {
        let items = (0..shape.n()).map(|i| Box::new(T::mk(value(seed, id, i)))).collect();
        Own { id, shape, layout, items, log: log.clone(), p: PhantomData }
    }
    fn pair(&self, r: usize, c: usize) -> usize {
        let mut l = self.log.borrow_mut();
        if !self.shape.valid(r, c) {
            l.bad = Some(format!("operand {} was asked for ({r},{c})", self.id));
            drop(l);
            panic!("asked for ({r},{c})")
        }
        let i = self.shape.idx(r, c);
        l.asked.push((self.id, i));
        i
    }
    fn line(&self, i: usize) -> usize {
        let mut l = self.log.borrow_mut();
        if i >= self.items.len() {
            l.bad = Some(format!("operand {} was asked for element {i}", self.id));
            drop(l);
            panic!("asked for element {i}")
        }
        l.asked.push((self.id, i));
        i
    }
}
impl<T: Val, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> UnsafeRandomAccess for Own<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        *self.items[self.pair(r, c)]
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        *self.items[self.line(i)]
    }
}
impl<T: Val, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> UnsafeRandomAccessMut for Own<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked_mut(&mut self, r: usize, c: usize) -> &mut T {
        let i = self.pair(r, c);
        &mut self.items[i]
    }
    unsafe fn get1d_unchecked_mut(&mut self, i: usize) -> &mut T {
        let i = self.line(i);
        &mut self.items[i]
    }
}
impl<T, L: LayoutType, RS, CS> Layout for Own<T, L, RS, CS> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.layout
    }
}
impl<T, L, RS: SizeIdentifier, CS: SizeIdentifier> SizeType for Own<T, L, RS, CS> {
    type R = RS;
    type C = CS;
}
type M<T, L, RS, CS> = Matrix<T, Own<T, L, RS, CS>, L, RS, CS>;

fn value(seed: u64, id: u8, i: usize) -> i64 {
    let x = (seed ^ (id as u64) << 56).wrapping_add(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    ((x >> 40) % 201) as i64 - 100
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Op {
    kind: u8,
    form: u8,
    at: u32,
    v: i8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Impls {
    ty: u8,
    shape: u8,
    d: P,
    st: (u8, u8),
    seed: u64,
    ops: Vec<Op>,
}
fn ops(n: usize) -> impl Strategy<Value = Vec<Op>> {
    proptest::collection::vec(
        (0u8..14, 0u8..16, any::<u32>(), any::<i8>()).prop_map(|(kind, form, at, v)| Op { kind, form, at, v }),
        0..n,
    )
}
fn dims(big: bool) -> BoxedStrategy<P> {
    if big {
        prop_oneof![(40usize..150, 1usize..70), (1usize..20, 100usize..400), (300usize..1200, 1usize..4)].boxed()
    } else {
        prop_oneof![12 => (0usize..7, 0usize..7), 2 => (0usize..20, 0usize..20), 1 => (60usize..70, 1usize..5)].boxed()
    }
}
fn impls() -> BoxedStrategy<Impls> {
    (0u8..6, 0u8..12, dims(false), (0u8..4, 0u8..4), any::<u64>(), ops(14))
        .prop_map(|(ty, shape, d, st, seed, ops)| Impls { ty, shape, d, st, seed, ops })
        .boxed()
}
fn impls_big() -> BoxedStrategy<Impls> {
    (0u8..6, 0u8..12, dims(true), (0u8..4, 0u8..4), any::<u64>(), ops(6))
        .prop_map(|(ty, shape, d, st, seed, ops)| Impls { ty, shape, d, st, seed, ops })
        .boxed()
}

fn check_impls(c: &Impls, o: &mut Obs) -> Res {
    o.label(TYPES[c.ty as usize % 6]);
    with_val!(c.ty, T => impls_of::<T>(c, o))
}
fn impls_of<T: Val>(c: &Impls, o: &mut Obs) -> Res {
    let (d, (s0, s1)) = (c.d, (1 + c.st.0 as usize, c.st.1 as usize));
    let sr = ArbitraryStrideRowMajor::new(d, (s0 * d.1.max(1) + s1, s0));
    let sc = ArbitraryStrideColumnMajor::new(d, (s0, s0 * d.0.max(1) + s1));
    let row = Shape { order: Order::Row, rows: d.0, cols: d.1 };
    let col = Shape { order: Order::Col, ..row };
    let n = d.0;
    let up = Shape { order: Order::Upper, rows: n, cols: n };
    let rv = Shape { order: Order::Row, rows: 1, cols: d.1 };
    let cv = Shape { order: Order::Col, rows: d.0, cols: 1 };
    match c.shape {
        0 => dynamic::<T, RowMajor, _, _>(c, o, row, RowMajor::new(d), RowMajor::new(d), RowMajor::new((d.0 + 1, d.1))),
        1 => dynamic::<T, RowMajor, _, _>(c, o, row, sr, RowMajor::new(d), RowMajor::new((d.0, d.1 + 1))),
        2 => dynamic::<T, ColumnMajor, _, _>(c, o, col, ColumnMajor::new(d), sc, ArbitraryStrideColumnMajor::new((d.1, d.0 + 1), (1, d.1.max(1)))),
        3 => dynamic::<T, ColumnMajor, _, _>(c, o, col, sc, ColumnMajor::new(d), ColumnMajor::new((d.0 + 1, d.1 + 1))),
        4 => dynamic::<T, UpperTriangular, _, _>(c, o, up, UpperTriangular::new(n), UpperTriangular::new(n), UpperTriangular::new(n + 1)),
        5 => run::<T, RowMajor, _, _, N4, N5>(c, o, Shape { order: Order::Row, rows: 4, cols: 5 }, RowMajor::new((4, 5)), ArbitraryStrideRowMajor::new((4, 5), (5 * s0 + s1, s0)), ArbitraryStrideRowMajor::new((5, 4), (4, 1))),
        6 => run::<T, ColumnMajor, _, _, Some_, N5>(c, o, Shape { order: Order::Col, rows: d.0, cols: 5 }, ColumnMajor::new((d.0, 5)), ColumnMajor::new((d.0, 5)), ColumnMajor::new((d.0 + 1, 5))),
        7 => run::<T, RowMajor, _, _, Some_, Some_>(c, o, row, sr, sr_like(d, s0), RowMajor2::other(d)),
        8 => run::<T, RowVector, _, _, Fixed1, Dynamic>(c, o, rv, RowVector::new(d.1), ArbitraryStrideRowVector::new(d.1, s0), ArbitraryStrideRowVector::new(d.1 + 1, 1)),
        9 => run::<T, ColumnVector, _, _, Dynamic, Fixed1>(c, o, cv, ArbitraryStrideColumnVector::new(d.0, s0), ColumnVector::new(d.0), ColumnVector::new(d.0 + 1)),
        10 => run::<T, ColumnVector, _, _, N4, Fixed1>(c, o, Shape { order: Order::Col, rows: 4, cols: 1 }, ColumnVector::new(4), ColumnVector::new(4), ColumnVector::new(5)),
        _ => dynamic::<T, RowVector, _, _>(c, o, rv, RowVector::new(d.1), RowVector::new(d.1), RowVector::new(d.1 + 2)),
    }
}
fn sr_like(d: P, s: usize) -> ArbitraryStrideRowMajor {
    // columns further apart than rows
    ArbitraryStrideRowMajor::new(d, (s, s * d.0.max(1)))
}
struct RowMajor2;
impl RowMajor2 {
    fn other(d: P) -> ArbitraryStrideRowMajor {
        ArbitraryStrideRowMajor::new((d.0 + 1, d.1), (d.1.max(1), 1))
    }
}

/// Forms of expressions over two operands: their coefficients.
fn coeff(form: u8, s: i64) -> (i64, i64) {
    match form {
        0 | 1 | 2 => (1, 0),
        3 | 4 => (1, 1),
        5 => (2, 1),
        6 => (1, 2),
        7 => (s, 0),
        8 => (s, s),
        _ => (0, 1),
    }
}
/// Visits an expression of the given form; false if there is none for this scalar.
fn form<T: Val, B: BaseLayoutType<IndexLayout = B>, L1: LayoutType<IndexLayout = B>, L2: LayoutType<IndexLayout = B>, RS: SizeIdentifier, CS: SizeIdentifier>(
    k: u8,
    s: i64,
    a: &M<T, L1, RS, CS>,
    b: &M<T, L2, RS, CS>,
    f: &mut dyn FnMut(&dyn Vw<T>),
) -> bool {
    match k {
        0 => f(a),
        1 => f(&Matrix::from_ref(a)),
        2 => {
            let r = Matrix::from_ref(a);
            f(&Matrix::<T, _, L1, RS, CS>::new(MatrixRef::new(&r)))
        }
        3 => f(&(a + b)),
        4 => f(&(Matrix::from_ref(a) + b)),
        5 => f(&((a + b) + a)),
        6 => f(&(b + (a + Matrix::from_ref(b)))),
        7 => return T::scaled(s, a, s % 2 == 0, f),
        8 => return T::scaled(s, &(a + b), s % 2 == 0, f),
        _ => f(b),
    }
    true
}
fn dynamic<T: Val, B: BaseLayoutType<IndexLayout = B>, L1: LayoutType<IndexLayout = B>, L2: LayoutType<IndexLayout = B>>(c: &Impls, o: &mut Obs, sh: Shape, l1: L1, l2: L2, other: L2) -> Res {
    let log = Rc::new(RefCell::new(Log::default()));
    let i1 = l1.index_layout();
    let (ia, ib) = (Own::<T, L1, Dynamic, Dynamic>::new(1, sh, l1, c.seed, &log), Own::<T, L2, Dynamic, Dynamic>::new(2, sh, l2, c.seed, &log));
    let (va, vb): (Vec<i64>, Vec<i64>) = (ia.items.iter().map(|x| x.val()).collect(), ib.items.iter().map(|x| x.val()).collect());
    let (a, b): (M<T, L1, Dynamic, Dynamic>, M<T, L2, Dynamic, Dynamic>) = (Matrix::new(ia), Matrix::new(ib));
    ensure!(i1.dim() == (sh.rows, sh.cols), "{c:?}: index layout has dimension {:?}", i1.dim());
    for op in c.ops.iter().filter(|op| op.kind == 13) {
        o.label("eval");
        let k = op.form % 6;
        let e: MatrixD<T, B> = match k {
            0 => a.eval(),
            1 => Matrix::from_ref(&a).eval(),
            2 => Matrix::from_ref(&Matrix::from_ref(&a)).eval(),
            3 => (&a + &b).eval(),
            4 => (Matrix::from_ref(&a) + &b).eval(),
            _ => ((&a + &b) + &a).eval(),
        };
        let (ka, kb) = coeff(k, 0);
        ensure!(e.dim() == (sh.rows, sh.cols), "{c:?}: eval has dimension {:?}", e.dim());
        for i in 0..sh.n() {
            let want = T::red(ka * va[i] + kb * vb[i]);
            let (r, cc) = sh.at(i);
            ensure!(e.get1d(i).val() == want, "{c:?}: element {i} of eval (form {k}) is {}, should be {want}", e.get1d(i));
            ensure!(e.get(r, cc).val() == want, "{c:?}: element ({r},{cc}) of eval (form {k}) is {}, should be {want}", e.get(r, cc));
        }
        let l = log.take();
        ensure!(l.bad.is_none(), "{c:?}: {}", l.bad.unwrap());
        for (id, k) in [(1, ka), (2, kb)] {
            let mut seen = vec![false; sh.n()];
            l.asked.iter().filter(|x| x.0 == id).for_each(|x| seen[x.1] = true);
            ensure!(seen.iter().all(|s| *s == (k != 0)), "{c:?}: eval (form {}) asked operand {id} for {:?}", op.form, seen);
        }
    }
    go(c, o, sh, a, b, other, log, va, vb)
}
fn run<T: Val, B: BaseLayoutType<IndexLayout = B>, L1: LayoutType<IndexLayout = B>, L2: LayoutType<IndexLayout = B>, RS: SizeIdentifier, CS: SizeIdentifier>(c: &Impls, o: &mut Obs, sh: Shape, l1: L1, l2: L2, other: L2) -> Res {
    let log = Rc::new(RefCell::new(Log::default()));
    let (ia, ib) = (Own::<T, L1, RS, CS>::new(1, sh, l1, c.seed, &log), Own::<T, L2, RS, CS>::new(2, sh, l2, c.seed, &log));
    let (va, vb): (Vec<i64>, Vec<i64>) = (ia.items.iter().map(|x| x.val()).collect(), ib.items.iter().map(|x| x.val()).collect());
    go(c, o, sh, Matrix::new(ia), Matrix::new(ib), other, log, va, vb)
}
#[allow(clippy::too_many_arguments)]
fn go<T: Val, B: BaseLayoutType<IndexLayout = B>, L1: LayoutType<IndexLayout = B>, L2: LayoutType<IndexLayout = B>, RS: SizeIdentifier, CS: SizeIdentifier>(
    c: &Impls,
    o: &mut Obs,
    sh: Shape,
    mut a: M<T, L1, RS, CS>,
    b: M<T, L2, RS, CS>,
    other: L2,
    log: Rc<RefCell<Log>>,
    mut va: Vec<i64>,
    vb: Vec<i64>,
) -> Res {
    let n = sh.n();
    if c.ops.len() > 1 && n > 1 {
        o.hit()
    }
    // operands that do not fit are refused, and not read
    let od = other.dim();
    let osh = Shape { order: sh.order, rows: od.0, cols: od.1 };
    let x: M<T, L2, RS, CS> = Matrix::new(Own::new(3, osh, other, c.seed, &log));
    if od != (sh.rows, sh.cols) {
        ensure!(refuses(|| { let _ = &a + &x; }), "{c:?}: a sum with a {od:?} matrix was not refused");
        ensure!(refuses(|| { let _ = &x + &b; }), "{c:?}: a sum of a {od:?} matrix was not refused");
    }
    for op in &c.ops {
        let s = (op.v % 8) as i64;
        let k = op.form % 10;
        let i = op.at as usize % n.max(1);
        let mut res: Res = Ok(());
        let (ka, kb) = coeff(k, s);
        match op.kind {
            0..=7 if n > 0 => {
                let (r, cc) = sh.at(i);
                let want = T::red(ka * va[i] + kb * vb[i]);
                let how = op.kind % 4;
                let there = form(k, s, &a, &b, &mut |v| {
                    let got = match how {
                        0 => v.g2(r, cc),
                        1 => v.g1(i),
                        2 => unsafe { v.u2(r, cc) },
                        _ => unsafe { v.u1(i) },
                    };
                    if got.val() != want {
                        res = fail(format!("{c:?}: element {i} = ({r},{cc}) of form {k} is {got}, should be {want} ({op:?})"))
                    }
                });
                res?;
                if there {
                    let l = log.take();
                    ensure!(l.bad.is_none(), "{c:?}: {}", l.bad.unwrap());
                    ensure!(l.asked.iter().all(|x| x.1 == i), "{c:?}: reading element {i} of form {k} asked for {:?}", l.asked);
                    let (uses_a, uses_b) = (k < 9, !(k < 3 || k == 7));
                    ensure!(l.asked.iter().any(|x| x.0 == 1) == uses_a && l.asked.iter().any(|x| x.0 == 2) == uses_b, "{c:?}: reading element {i} of form {k} asked for {:?}", l.asked);
                }
            }
            8 => {
                // outside: refused without asking
                let far = [0, 1, 7, usize::MAX / 2][op.v as usize % 4];
                let (r, cc) = [(sh.rows + far, 0), (0, sh.cols + far), (sh.rows + far, sh.cols + far), (sh.cols.max(sh.rows), sh.rows.min(sh.cols))][(op.at % 4) as usize];
                form(k, s, &a, &b, &mut |v| {
                    if (r >= sh.rows || cc >= sh.cols) && !refuses(|| v.g2(r, cc)) {
                        res = fail(format!("{c:?}: ({r},{cc}) of form {k} was not refused"))
                    } else if !refuses(|| v.g1(n + far)) {
                        res = fail(format!("{c:?}: element {} of {n} of form {k} was not refused", n + far))
                    }
                });
                res?;
                let l = log.take();
                ensure!(l.bad.is_none() && l.asked.is_empty(), "{c:?}: a refused access asked for {:?} {:?}", l.asked, l.bad);
            }
            9 | 10 if n > 0 => {
                let (r, cc) = sh.at(i);
                let v = T::mk(op.v as i64);
                let how = op.form % 4;
                let put = |m: &mut dyn VwMut<T>| match how {
                    0 => *m.m2(r, cc) = v,
                    1 => *m.m1(i) = v,
                    2 => unsafe { *m.mu2(r, cc) = v },
                    _ => unsafe { *m.mu1(i) = v },
                };
                match op.form / 4 {
                    0 => put(&mut a),
                    1 => put(&mut Matrix::<T, _, L1, RS, CS>::new(MatrixRefMut::new(&mut a))),
                    _ => {
                        let mut w = Matrix::<T, _, L1, RS, CS>::new(MatrixRefMut::new(&mut a));
                        put(&mut Matrix::<T, _, L1, RS, CS>::new(MatrixRefMut::new(&mut w)))
                    }
                }
                va[i] = T::red(op.v as i64);
                let l = log.take();
                ensure!(l.bad.is_none() && !l.asked.is_empty() && l.asked.iter().all(|x| *x == (1, i)), "{c:?}: writing element {i} asked for {:?} {:?}", l.asked, l.bad);
                o.label("written");
            }
            11 => {
                let far = op.v as usize % 3;
                let mut w = Matrix::<T, _, L1, RS, CS>::new(MatrixRefMut::new(&mut a));
                let bad = if op.form % 2 == 0 { !refuses(|| { w.m2(sh.rows + far, 0); }) || !refuses(|| { w.m2(0, sh.cols + far); }) } else { !refuses(|| { w.m1(n + far); }) };
                ensure!(!bad, "{c:?}: a mutable access outside was not refused ({op:?})");
                let l = log.take();
                ensure!(l.bad.is_none() && l.asked.is_empty(), "{c:?}: a refused access asked for {:?} {:?}", l.asked, l.bad);
            }
            12 => {
                form(k, s, &a, &b, &mut |v| {
                    if v.vdim() != (sh.rows, sh.cols) || v.vn() != n || v.ns() != (RS::N, CS::N) {
                        res = fail(format!("{c:?}: form {k} has dimension {:?}, {} elements, sizes {:?}", v.vdim(), v.vn(), v.ns()))
                    }
                });
                res?;
                let l = log.take();
                ensure!(l.bad.is_none() && l.asked.is_empty(), "{c:?}: looking at the dimension asked for {:?}", l.asked);
            }
            _ => {}
        }
    }
    // afterwards everything is as it should be; the operands move into a sum
    let sum = a + b;
    for i in 0..n {
        let want = T::red(va[i] + vb[i]);
        ensure!(sum.get1d(i).val() == want, "{c:?}: in the end element {i} of the sum is {}, should be {want}", sum.get1d(i));
    }
    let l = log.take();
    ensure!(l.bad.is_none(), "{c:?}: {}", l.bad.unwrap());
    Ok(())
}

// --- the library's storage with a user's scalars ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Stor {
    ty: u8,
    kind: u8,
    d: P,
    st: (u8, u8),
    top: (u8, u8),
    seed: u64,
    ops: Vec<Op>,
}
fn stors() -> BoxedStrategy<Stor> {
    (0u8..5, 0u8..17, dims(false), (0u8..4, 0u8..4), (0u8..4, 0u8..4), any::<u64>(), ops(12))
        .prop_map(|(ty, kind, d, st, top, seed, ops)| Stor { ty, kind, d, st, top, seed, ops })
        .boxed()
}
fn stors_big() -> BoxedStrategy<Stor> {
    (0u8..5, 0u8..17, dims(true), (0u8..4, 0u8..4), (0u8..4, 0u8..4), any::<u64>(), ops(4))
        .prop_map(|(ty, kind, d, st, top, seed, ops)| Stor { ty, kind, d, st, top, seed, ops })
        .boxed()
}
trait St<T>: VwMut<T> {
    fn each(&mut self, f: &mut dyn FnMut(&mut T));
    fn sl(&self, a: usize, b: usize) -> &[T];
    fn slm(&mut self, a: usize, b: usize) -> &mut [T];
    fn pt(&self) -> *const T;
    fn ptm(&mut self) -> *mut T;
    fn twice(&self, f: &mut dyn FnMut(&dyn Vw<T>));
}
impl<T: Val, B: BaseLayoutType<IndexLayout = B>, L: LayoutType<IndexLayout = B>, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier> St<T> for GenericBaseMatrixMut<T, L, D, RS, CS> {
    fn each(&mut self, f: &mut dyn FnMut(&mut T)) {
        self.for_each(f)
    }
    fn sl(&self, a: usize, b: usize) -> &[T] {
        self.get_slice(a, b)
    }
    fn slm(&mut self, a: usize, b: usize) -> &mut [T] {
        self.get_slice_mut(a, b)
    }
    fn pt(&self) -> *const T {
        self.get_pointer()
    }
    fn ptm(&mut self) -> *mut T {
        self.get_pointer_mut()
    }
    fn twice(&self, f: &mut dyn FnMut(&dyn Vw<T>)) {
        f(&(self + self))
    }
}
/// position of element (r, c)
fn raw(sh: &Shape, s: P, r: usize, c: usize) -> usize {
    if sh.order == Order::Upper {
        sh.idx(r, c)
    } else {
        r * s.0 + c * s.1
    }
}
fn extent(sh: &Shape, s: P) -> usize {
    if sh.n() == 0 || sh.order == Order::Upper {
        sh.n()
    } else {
        raw(sh, s, sh.rows - 1, sh.cols - 1) + 1
    }
}
/// Runs the operations on matrix `m`, whose storage should hold `mem` (values by position, from its pointer on).
fn drive<T: Val>(c: &Stor, o: &mut Obs, sh: Shape, s: P, mem: &mut [i64], m: &mut dyn St<T>) -> Res {
    let n = sh.n();
    let e = extent(&sh, s);
    let shared = sh.order != Order::Upper && n > 1 && sh.rows > 1 && sh.cols > 1 && {
        let g = gcd(s.0, s.1);
        s.1 / g < sh.rows && s.0 / g < sh.cols
    };
    assert!(!shared, "the case's elements overlap");
    if n > 1 && c.ops.len() > 1 {
        o.hit()
    }
    ensure!(m.vdim() == (sh.rows, sh.cols) && m.vn() == n, "{c:?}: dimension {:?} with {} elements", m.vdim(), m.vn());
    let all = |m: &dyn St<T>, mem: &[i64]| -> Res {
        for i in 0..n {
            let (r, cc) = sh.at(i);
            let want = mem[raw(&sh, s, r, cc)];
            ensure!(m.g1(i).val() == want, "{c:?}: element {i} is {}, should be {want}", m.g1(i));
            ensure!(m.g2(r, cc).val() == want, "{c:?}: element ({r},{cc}) is {}, should be {want}", m.g2(r, cc));
        }
        Ok(())
    };
    all(m, mem)?;
    for op in &c.ops {
        let i = op.at as usize % n.max(1);
        match op.kind {
            0..=3 if n > 0 => {
                let (r, cc) = sh.at(i);
                let v = T::mk(op.v as i64);
                let base = m.ptm() as usize;
                let p = match op.kind {
                    0 => m.m2(r, cc),
                    1 => m.m1(i),
                    2 => unsafe { m.mu2(r, cc) },
                    _ => unsafe { m.mu1(i) },
                };
                *p = v;
                let at = p as *mut T as usize;
                mem[raw(&sh, s, r, cc)] = T::red(op.v as i64);
                ensure!(at == base + raw(&sh, s, r, cc) * std::mem::size_of::<T>(), "{c:?}: element ({r},{cc}) lies {} bytes behind the pointer", at.wrapping_sub(base));
            }
            4 | 5 => {
                o.label("for_each");
                let mut seen = Vec::new();
                m.each(&mut |x| {
                    seen.push(x.val());
                    *x = T::mk(x.val() + op.v as i64 + seen.len() as i64)
                });
                ensure!(seen.len() == n, "{c:?}: for_each visited {} of {n} elements", seen.len());
                for i in 0..n {
                    let (r, cc) = sh.at(i);
                    let x = &mut mem[raw(&sh, s, r, cc)];
                    ensure!(seen[i] == *x, "{c:?}: for_each saw {} as element {i}, which is {x}", seen[i]);
                    *x = T::red(*x + op.v as i64 + i as i64 + 1);
                }
            }
            6 | 7 if e > 0 => {
                let a = op.at as usize % e;
                let b = a + 1 + op.form as usize % (e - a);
                ensure!(m.sl(a, b).len() == b - a && m.slm(a, b).len() == b - a, "{c:?}: slice {a}..{b} has another length");
                for j in a..b {
                    ensure!(m.sl(a, b)[j - a].val() == mem[j], "{c:?}: item {j} of slice {a}..{b} is {}, should be {}", m.sl(a, b)[j - a], mem[j]);
                }
                if op.kind == 7 {
                    // the first element of the range, if it is an element
                    if let Some(i) = (0..n).find(|i| { let (r, cc) = sh.at(*i); raw(&sh, s, r, cc) == a }) {
                        m.slm(a, b)[0] = T::mk(op.v as i64);
                        let (r, cc) = sh.at(i);
                        mem[raw(&sh, s, r, cc)] = T::red(op.v as i64);
                    }
                }
            }
            8 => {
                let r = refuses(|| m.g2(sh.rows, 0)) && refuses(|| m.g2(0, sh.cols)) && refuses(|| m.g1(n)) && refuses(|| { m.m1(n); }) && refuses(|| { m.m2(sh.rows, 0); }) && (e == 0 || refuses(|| { m.sl(0, mem.len() + 1); }));
                ensure!(r, "{c:?}: an access outside was not refused");
            }
            9 | 10 => {
                let mut res: Res = Ok(());
                m.twice(&mut |v| {
                    for i in 0..n {
                        let (r, cc) = sh.at(i);
                        let want = T::red(2 * mem[raw(&sh, s, r, cc)]);
                        if v.g1(i).val() != want || v.g2(r, cc).val() != want {
                            res = fail(format!("{c:?}: element {i} of the sum with itself is {} / {}, should be {want}", v.g1(i), v.g2(r, cc)));
                            break;
                        }
                    }
                });
                res?
            }
            _ => ensure!(m.pt() == m.ptm() as *const T, "{c:?}: two pointers"),
        }
        if n < 300 {
            all(m, mem)?
        }
    }
    all(m, mem)
}
/// zero everywhere at first
fn fresh<T: Val>(c: &Stor, o: &mut Obs, sh: Shape, s: P, m: &mut dyn St<T>) -> Res {
    let mut mem = vec![0; extent(&sh, s)];
    drive(c, o, sh, s, &mut mem, m)
}
/// a buffer with something in it, of which the matrix covers a part
fn lent<T: Val>(c: &Stor, o: &mut Obs, sh: Shape, s: P, f: &mut dyn FnMut(&mut [T], &mut dyn FnMut(&mut dyn St<T>) -> Res) -> Res) -> Res {
    let e = extent(&sh, s);
    let lead = c.top.0 as usize;
    let mut mem: Vec<i64> = (0..e + lead + c.top.1 as usize).map(|i| value(c.seed, 9, i)).map(T::red).collect();
    let mut buf: Vec<T> = mem.iter().map(|x| T::mk(*x)).collect();
    f(&mut buf[lead..lead + e], &mut |m| drive(c, o, sh, s, &mut mem[lead..lead + e], m))?;
    for i in 0..mem.len() {
        ensure!(buf[i].val() == mem[i], "{c:?}: item {i} of the buffer is {}, should be {}", buf[i], mem[i]);
    }
    Ok(())
}
fn check_stor(c: &Stor, o: &mut Obs) -> Res {
    o.label(TYPES[c.ty as usize % 6]);
    with_val!(c.ty, T => stor::<T>(c, o))
}
fn stor<T: Val>(c: &Stor, o: &mut Obs) -> Res {
    let d = c.d;
    let (s0, s1) = (1 + c.st.0 as usize, c.st.1 as usize);
    let sh = |order, rows, cols| Shape { order, rows, cols };
    let row = sh(Order::Row, d.0, d.1);
    let col = sh(Order::Col, d.0, d.1);
    let rs = (d.1, 1);
    let cs = (1, d.0);
    let far_r = (s0 * d.1.max(1) + s1, s0);
    let far_c = (s0, s0 * d.0.max(1) + s1);
    let top = (c.top.0 as usize, c.top.1 as usize);
    match c.kind {
        0 => fresh::<T>(c, o, row, rs, &mut MatrixD::<T, RowMajor>::zeros_from_dim(d.0, d.1)),
        1 => fresh::<T>(c, o, col, cs, &mut MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1)),
        2 => fresh::<T>(c, o, sh(Order::Upper, d.0, d.0), (0, 0), &mut UpperTriangularMatrix::<T>::zeros_from_dim(d.0, d.0)),
        3 => fresh::<T>(c, o, sh(Order::Col, d.0, 1), (1, d.0), &mut vector![T, d.0]),
        4 => fresh::<T>(c, o, sh(Order::Row, 1, d.1), (d.1, 1), &mut RowVectorD::<T>::zeros_from_length(d.1)),
        5 => fresh::<T>(c, o, sh(Order::Row, 2, 3), (3, 1), &mut Matrix23::<T, RowMajor>::zeros_from_dim()),
        6 => fresh::<T>(c, o, sh(Order::Col, 3, 2), (1, 3), &mut Matrix32::<T, ColumnMajor>::zeros_from_dim()),
        7 => fresh::<T>(c, o, row, rs, &mut mat![T, d, RowMajor]),
        8 => fresh::<T>(c, o, sh(Order::Row, 4, 5), (5, 1), &mut GenericBaseMatrixMut::<T, RowMajor, ArrayContainer<T, 20>, N4, N5>::from_data(ArrayContainer::new(), RowMajor::new((4, 5)))),
        9 => lent::<T>(c, o, row, far_r, &mut |b, f| f(&mut unsafe { SliceMatrixMut::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(b.as_mut_ptr(), d, far_r) })),
        10 => lent::<T>(c, o, col, far_c, &mut |b, f| f(&mut unsafe { SliceMatrixMut::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(b.as_mut_ptr(), d, far_c) })),
        11 => lent::<T>(c, o, row, rs, &mut |b, f| f(&mut unsafe { SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_pointer(b.as_mut_ptr(), d) })),
        12 => lent::<T>(c, o, col, cs, &mut |b, f| f(&mut GenericBaseMatrixMut::<T, ColumnMajor, SliceContainerMut<T>, Some_, Some_>::from_data(SliceContainerMut::new(b), ColumnMajor::new(d)))),
        13 => lent::<T>(c, o, sh(Order::Upper, d.1, d.1), (0, 0), &mut |b, f| f(&mut GenericBaseMatrixMut::<T, UpperTriangular, SliceContainerMut<T>, Dynamic, Dynamic>::from_data(SliceContainerMut::new(b), UpperTriangular::new(d.1)))),
        14 => {
            let s = (s0, 1 + s0 * d.0);
            lent::<T>(c, o, sh(Order::Col, d.0, 1), s, &mut |b, f| f(&mut GenericBaseMatrixMut::<T, ArbitraryStrideColumnVector, SliceContainerMut<T>, Dynamic, Fixed1>::from_data(SliceContainerMut::new(b), ArbitraryStrideColumnVector::new(d.0, s0))))
        }
        15 => {
            // a block of a matrix of zeros, and what it leaves of it
            o.label("block");
            let (pr, pc) = (d.0 + top.0 + s1, d.1 + top.1 + s0);
            let mut p = MatrixD::<T, ColumnMajor>::zeros_from_dim(pr, pc);
            p.for_each(|x| *x = T::mk(7));
            let mut mem = vec![7; extent(&col, (1, pr))];
            drive::<T>(c, o, col, (1, pr), &mut mem, &mut p.block_mut(top, d))?;
            for r in 0..pr {
                for cc in 0..pc {
                    let want = if r >= top.0 && cc >= top.1 && r < top.0 + d.0 && cc < top.1 + d.1 { mem[(r - top.0) + (cc - top.1) * pr] } else { 7 };
                    ensure!(p.get(r, cc).val() == want, "{c:?}: element ({r},{cc}) of the parent is {}, should be {want}", p.get(r, cc));
                }
            }
            let blk = p.block(top, d);
            for r in 0..d.0 {
                for cc in 0..d.1 {
                    ensure!(blk.get(r, cc).val() == mem[r + cc * pr], "{c:?}: element ({r},{cc}) of the read-only block is {}", blk.get(r, cc));
                }
            }
            // and its evaluation
            let ev = (&blk + &blk).eval();
            for r in 0..d.0 {
                for cc in 0..d.1 {
                    ensure!(ev.get(r, cc).val() == T::red(2 * mem[r + cc * pr]), "{c:?}: element ({r},{cc}) of the evaluated sum is {}", ev.get(r, cc));
                }
            }
            Ok(())
        }
        _ => {
            o.label("quadrants");
            let (pr, pc) = (d.0 + top.0, d.1 + top.1);
            let mut p = MatrixD::<T, RowMajor>::zeros_from_dim(pr, pc);
            let mut mems = Vec::new();
            {
                let (mut q0, mut q1, mut q2, mut q3) = p.split_in_four_mut(top);
                let dims = [top, (top.0, d.1), (d.0, top.1), d];
                let qs: [&mut dyn St<T>; 4] = [&mut q0, &mut q1, &mut q2, &mut q3];
                for (q, m) in qs.into_iter().enumerate() {
                    let (r, cc) = dims[q];
                    let qsh = sh(Order::Row, r, cc);
                    let mut mem = vec![0; extent(&qsh, (pc, 1))];
                    // neighbours' writes show up between the rows of a quadrant, so raw ranges are left out
                    let only = Stor { ops: c.ops.iter().filter(|op| !matches!(op.kind, 6 | 7)).copied().collect(), ..c.clone() };
                    drive::<T>(&only, o, qsh, (pc, 1), &mut mem, m)?;
                    mems.push((qsh, mem));
                }
            }
            for r in 0..pr {
                for cc in 0..pc {
                    let q = (r >= top.0) as usize * 2 + (cc >= top.1) as usize;
                    let want = mems[q].1[(r - if q >= 2 { top.0 } else { 0 }) * pc + (cc - if q % 2 == 1 { top.1 } else { 0 })];
                    ensure!(p.get(r, cc).val() == want, "{c:?}: element ({r},{cc}) of the whole is {}, should be {want}", p.get(r, cc));
                }
            }
            Ok(())
        }
    }
}

pub fn c29() -> Vec<Sub> {
    vec![
        sub("implementations", 250_000, 3_000_000, impls, check_impls),
        sub("implementations, large", 3_000, 10_000, impls_big, check_impls),
        sub("scalars", 250_000, 3_000_000, stors, check_stor),
        sub("scalars, large", 3_000, 10_000, stors_big, check_stor),
    ]
}
