//! User-supplied implementations of the library's traits: element access, layouts and containers.
use crate::mats::*;
use crate::scal::Sc;
use householder::*;
use std::marker::PhantomData;

/// Element access over a plain vector, numbered by the layout's linear index (or, for the index layouts that
/// are the storage layouts themselves, by the raw position).
pub struct UserMat<T: Sc, L: LayoutType, RS, CS> {
    pub data: Vec<T>,
    pub layout: L,
    p: PhantomData<(RS, CS)>,
}
impl<T: Sc, L: LayoutType, RS, CS> UserMat<T, L, RS, CS> {
    pub fn new(data: Vec<T>, layout: L) -> Self {
        UserMat { data, layout, p: PhantomData }
    }
}
impl<T: Sc, L: LayoutType, RS, CS> Layout for UserMat<T, L, RS, CS> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.layout
    }
}
impl<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> SizeType for UserMat<T, L, RS, CS> {
    type R = RS;
    type C = CS;
}
impl<T: Sc, L: LayoutType, RS, CS> UnsafeRandomAccess for UserMat<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.data[self.layout.convert_2d_raw(row, col)]
    }
    unsafe fn get1d_unchecked(&self, index: usize) -> T {
        self.data[self.layout.convert_1d_raw(index)]
    }
}
impl<T: Sc, L: LayoutType, RS, CS> UnsafeRandomAccessMut for UserMat<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked_mut(&mut self, row: usize, col: usize) -> &mut T {
        let p = self.layout.convert_2d_raw(row, col);
        &mut self.data[p]
    }
    unsafe fn get1d_unchecked_mut(&mut self, index: usize) -> &mut T {
        let p = self.layout.convert_1d_raw(index);
        &mut self.data[p]
    }
}

/// Element access that panics at a given read: element `i` of the index order has value `of(i)`.
pub struct Flaky<T: Sc, L: LayoutType> {
    pub of: fn(u32, usize) -> T,
    pub z: u32,
    pub layout: L,
    /// reads until the fault; `None` for never
    pub left: std::rc::Rc<std::cell::Cell<Option<usize>>>,
    pub reads: std::cell::Cell<usize>,
}
impl<T: Sc, L: LayoutType> Flaky<T, L> {
    pub fn new(of: fn(u32, usize) -> T, z: u32, layout: L, left: &std::rc::Rc<std::cell::Cell<Option<usize>>>) -> Self {
        Flaky { of, z, layout, left: left.clone(), reads: std::cell::Cell::new(0) }
    }
    fn tick(&self) {
        self.reads.set(self.reads.get() + 1);
        match self.left.get() {
            Some(0) => std::panic::panic_any(crate::engine::Boom(self.reads.get())),
            k => self.left.set(k.map(|k| k - 1)),
        }
    }
}
impl<T: Sc, L: LayoutType> Layout for Flaky<T, L> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.layout
    }
}
impl<T: Sc, L: LayoutType> SizeType for Flaky<T, L> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<T: Sc, L: LayoutType> UnsafeRandomAccess for Flaky<T, L> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.tick();
        (self.of)(self.z, self.layout.convert_2d_1d(row, col))
    }
    unsafe fn get1d_unchecked(&self, index: usize) -> T {
        self.tick();
        (self.of)(self.z, index)
    }
}
pub type FlakyMat<T, L> = Matrix<T, Flaky<T, L>, L, Dynamic, Dynamic>;

type U<T, L, RS, CS> = Matrix<T, UserMat<T, L, RS, CS>, L, RS, CS>;

/// A matrix of kind `s` over a copy of its part of `buf`, with user-supplied element access.
/// (If `m` indexed without the library's bounds checks, the vector's own checks would mostly still panic; wrong
/// grants show on pairs whose position falls inside the storage.)
pub fn with_user<T: Sc>(s: &MSpec, buf: &[T], f: &mut dyn FnMut(&mut dyn ViewMut<T>)) {
    fn go<T: Sc, L: MkLayout, RS: SizeIdentifier, CS: SizeIdentifier>(s: &MSpec, buf: &[T], f: &mut dyn FnMut(&mut dyn ViewMut<T>)) {
        let mut m: U<T, L, RS, CS> = Matrix::new(UserMat::new(buf[s.off..s.off + s.clen].to_vec(), L::mk(s)));
        f(&mut m)
    }
    match s.kind {
        Kind::RM | Kind::FR => go::<T, RowMajor, Dynamic, Dynamic>(s, buf, f),
        Kind::CM | Kind::FC => go::<T, ColumnMajor, Dynamic, Dynamic>(s, buf, f),
        Kind::SRM => go::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>(s, buf, f),
        Kind::SCM => go::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>(s, buf, f),
        Kind::UT => go::<T, UpperTriangular, Dynamic, Dynamic>(s, buf, f),
        Kind::RVD => go::<T, RowVector, Dynamic, Dynamic>(s, buf, f),
        Kind::CVD => go::<T, ColumnVector, Dynamic, Dynamic>(s, buf, f),
        Kind::RV | Kind::FRV => go::<T, RowVector, Fixed1, Dynamic>(s, buf, f),
        Kind::CV | Kind::FCV => go::<T, ColumnVector, Dynamic, Fixed1>(s, buf, f),
        Kind::SRV => go::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>(s, buf, f),
        Kind::SCV => go::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>(s, buf, f),
    }
}
