//! Scalar types under test, deterministic contents, and exact comparison.
use householder::types::{c32, c64, HScalar};
use householder::*;
use rand::RngCore;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ty {
    F64,
    F32,
    C64,
    C32,
}

/// Dispatch on the scalar type.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            $crate::scal::Ty::F64 => {
                type $T = f64;
                $e
            }
            $crate::scal::Ty::F32 => {
                type $T = f32;
                $e
            }
            $crate::scal::Ty::C64 => {
                type $T = householder::types::c64;
                $e
            }
            $crate::scal::Ty::C32 => {
                type $T = householder::types::c32;
                $e
            }
        }
    };
}

pub trait Sc: HScalar + RandScalar + PartialEq + Send + Sync + 'static {
    const COMPLEX: bool;
    const SINGLE: bool;
    /// unit roundoff
    const U: f64;
    fn mk(re: f64, im: f64) -> Self;
    fn parts(self) -> (f64, f64);
    /// Same value: bit-identical components, any two NaNs being the same.
    fn same(self, o: Self) -> bool;
    /// Reference product written out in components.
    fn rmul(self, o: Self) -> Self;
    fn radd(self, o: Self) -> Self;
    /// Reference draw of one standard normal element.
    fn draw(rng: &mut dyn RngCore) -> Self;
    fn fill_rng<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>,
        rng: &mut dyn RngCore,
    );
    /// scalar * matrix etc. are only implemented for concrete scalars; these forward to the operators.
    fn s_m<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        s: Self,
        m: Matrix<Self, I, L, RS, CS>,
    ) -> householder::scalar_mult::ScalarProdMat<Self, I, L, RS, CS>;
    fn m_s<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: Matrix<Self, I, L, RS, CS>,
        s: Self,
    ) -> householder::scalar_mult::ScalarProdMat<Self, I, L, RS, CS>;
    fn s_rm<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        s: Self,
        m: &'a Matrix<Self, I, L, RS, CS>,
    ) -> householder::scalar_mult::ScalarProdMat<Self, householder::matrix_ref::MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS>;
    fn rm_s<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: &'a Matrix<Self, I, L, RS, CS>,
        s: Self,
    ) -> householder::scalar_mult::ScalarProdMat<Self, householder::matrix_ref::MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS>;
    /// matrix products in the three forms: matrix x matrix, matrix x column vector, row vector x matrix
    fn mm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Dynamic>,
    );
    fn mv<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Fixed1>,
    );
    fn vm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Fixed1, Dynamic>,
    );
}

pub fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same_f32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

macro_rules! common {
    ($T:ty) => {
        fn fill_rng<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
            m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>,
            mut rng: &mut dyn RngCore,
        ) {
            m.fill_from_rand_standard_normal(&mut rng)
        }
        fn s_m<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            s: Self,
            m: Matrix<Self, I, L, RS, CS>,
        ) -> householder::scalar_mult::ScalarProdMat<Self, I, L, RS, CS> {
            s * m
        }
        fn m_s<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            m: Matrix<Self, I, L, RS, CS>,
            s: Self,
        ) -> householder::scalar_mult::ScalarProdMat<Self, I, L, RS, CS> {
            m * s
        }
        fn s_rm<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            s: Self,
            m: &'a Matrix<Self, I, L, RS, CS>,
        ) -> householder::scalar_mult::ScalarProdMat<Self, householder::matrix_ref::MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS> {
            s * m
        }
        fn rm_s<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            m: &'a Matrix<Self, I, L, RS, CS>,
            s: Self,
        ) -> householder::scalar_mult::ScalarProdMat<Self, householder::matrix_ref::MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS> {
            m * s
        }
        fn mm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Dynamic>,
        ) {
            Self::matmul(alpha, a, b, beta, c)
        }
        fn mv<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Fixed1>,
        ) {
            Self::matmul(alpha, a, b, beta, c)
        }
        fn vm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Fixed1, Dynamic>,
        ) {
            Self::matmul(alpha, a, b, beta, c)
        }
    };
}

macro_rules! real_sc {
    ($T:ty, $single:expr, $u:expr, $same:ident) => {
        impl Sc for $T {
            const COMPLEX: bool = false;
            const SINGLE: bool = $single;
            const U: f64 = $u;
            fn mk(re: f64, _im: f64) -> Self {
                re as $T
            }
            fn parts(self) -> (f64, f64) {
                (self as f64, 0.0)
            }
            fn same(self, o: Self) -> bool {
                $same(self, o)
            }
            fn rmul(self, o: Self) -> Self {
                self * o
            }
            fn radd(self, o: Self) -> Self {
                self + o
            }
            fn draw(mut rng: &mut dyn RngCore) -> Self {
                use rand_distr::Distribution;
                rand_distr::StandardNormal.sample(&mut rng)
            }
            common!($T);
        }
    };
}
macro_rules! complex_sc {
    ($T:ty, $R:ty, $single:expr, $u:expr, $same:ident) => {
        impl Sc for $T {
            const COMPLEX: bool = true;
            const SINGLE: bool = $single;
            const U: f64 = $u;
            fn mk(re: f64, im: f64) -> Self {
                <$T>::new(re as $R, im as $R)
            }
            fn parts(self) -> (f64, f64) {
                (self.re as f64, self.im as f64)
            }
            fn same(self, o: Self) -> bool {
                $same(self.re, o.re) && $same(self.im, o.im)
            }
            fn rmul(self, o: Self) -> Self {
                <$T>::new(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
            }
            fn radd(self, o: Self) -> Self {
                <$T>::new(self.re + o.re, self.im + o.im)
            }
            fn draw(mut rng: &mut dyn RngCore) -> Self {
                use rand_distr::Distribution;
                let re: $R = rand_distr::StandardNormal.sample(&mut rng);
                let im: $R = rand_distr::StandardNormal.sample(&mut rng);
                <$T>::new(re, im)
            }
            common!($T);
        }
    };
}
real_sc!(f64, false, 1.1102230246251565e-16, same_f64);
real_sc!(f32, true, 5.960464477539063e-8, same_f32);
complex_sc!(c64, f64, false, 1.1102230246251565e-16, same_f64);
complex_sc!(c32, f32, true, 5.960464477539063e-8, same_f32);

/// How matrix contents are made. Contents are a pure function of (mode, seed, position).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fill {
    /// distinct small integers by position
    Index,
    /// small integers in [-8, 8]
    Ints(u64),
    /// moderate non-integers in (-4, 4)
    Unit(u64),
    /// wildly varying exponents
    Wide(u64),
    /// zeros, infinities, NaN, subnormals, extremes
    Special(u64),
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0x632BE59BD9B4E019).wrapping_mul(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 53) as f64
}

fn one(f: Fill, salt: u64, pos: u64, part: u64, single: bool) -> f64 {
    let h = |s: u64| mix(mix(s, salt.wrapping_mul(2).wrapping_add(part)), pos);
    match f {
        Fill::Index => {
            // distinct over positions below 2^20 and over the two parts, and never zero
            let v = (pos % (1 << 20) + 1) as f64;
            if part == 0 {
                v
            } else {
                -(v + 0.5)
            }
        }
        Fill::Ints(s) => (h(s) % 17) as f64 - 8.0,
        Fill::Unit(s) => {
            let x = h(s);
            unit(x) * 8.0 - 4.0
        }
        Fill::Wide(s) => {
            let x = h(s);
            let e = if single { (mix(x, 1) % 60) as i32 - 30 } else { (mix(x, 1) % 400) as i32 - 200 };
            let m = 1.0 + unit(x);
            let v = m * 2f64.powi(e);
            if x & 1 == 0 {
                v
            } else {
                -v
            }
        }
        Fill::Special(s) => {
            let x = h(s);
            let t: [f64; 20] = [
                0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 3.0, 1.0 / 3.0,
                if single { f32::MAX as f64 } else { f64::MAX },
                if single { f32::MIN as f64 } else { f64::MIN },
                if single { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE },
                if single { f32::from_bits(1) as f64 } else { f64::from_bits(1) },
                if single { -(f32::from_bits(7) as f64) } else { -f64::from_bits(7) },
                if single { f32::EPSILON as f64 } else { f64::EPSILON },
                2.0, -1e10, 1e-10, 1e5,
            ];
            t[(x % 20) as usize]
        }
    }
}

/// Element of a filled buffer. `salt` separates the buffers of one case.
pub fn elem<T: Sc>(f: Fill, salt: u64, pos: usize) -> T {
    let p = pos as u64;
    let f = f;
    if matches!(f, Fill::Index) {
        let off = (salt % 8) as f64 * 0.125;
        return T::mk(one(f, salt, p, 0, T::SINGLE) + off, one(f, salt, p, 1, T::SINGLE) - off);
    }
    T::mk(one(f, salt, p, 0, T::SINGLE), one(f, salt, p, 1, T::SINGLE))
}

pub fn fill_vec<T: Sc>(f: Fill, salt: u64, n: usize) -> Vec<T> {
    (0..n).map(|i| elem(f, salt, i)).collect()
}

pub fn show<T: Sc>(v: T) -> String {
    if T::COMPLEX {
        let (r, i) = v.parts();
        format!("({r:?},{i:?})")
    } else {
        format!("{:?}", v.parts().0)
    }
}
