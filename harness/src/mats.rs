//! Matrices under test: specifications, independent position model, and construction.
use crate::engine::{fail, Res};
use crate::scal::{elem, show, Fill, Sc};
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;
use proptest::prelude::*;
use rand::RngCore;
use serde::{Deserialize, Serialize};

/// Logical index order.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Order {
    Row,
    Col,
    Upper,
}

fn isqrt(n: u128) -> u128 {
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 64;
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if m * m <= n {
            lo = m
        } else {
            hi = m
        }
    }
    lo
}

/// Logical shape: the documented enumeration of elements, computed independently of the library.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Shape {
    pub order: Order,
    pub rows: usize,
    pub cols: usize,
}

impl Shape {
    pub fn n(&self) -> usize {
        match self.order {
            Order::Upper => (self.rows as u128 * (self.rows as u128 + 1) / 2) as usize,
            _ => self.rows * self.cols,
        }
    }
    pub fn valid(&self, r: usize, c: usize) -> bool {
        r < self.rows && c < self.cols && (self.order != Order::Upper || c >= r)
    }
    pub fn idx(&self, r: usize, c: usize) -> usize {
        match self.order {
            Order::Row => r * self.cols + c,
            Order::Col => c * self.rows + r,
            Order::Upper => {
                let below = (self.rows - r - 1) as u128; // rows stored before row r
                (below * (below + 1) / 2 + (c - r) as u128) as usize
            }
        }
    }
    pub fn at(&self, i: usize) -> (usize, usize) {
        match self.order {
            Order::Row => (i / self.cols, i % self.cols),
            Order::Col => (i % self.rows, i / self.rows),
            Order::Upper => {
                // largest k with k(k+1)/2 <= i: k rows lie before
                let k = (isqrt(8 * i as u128 + 1) - 1) / 2;
                let r = self.rows - 1 - k as usize;
                (r, r + (i as u128 - k * (k + 1) / 2) as usize)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    /// row major, dynamic
    RM,
    /// column major, dynamic
    CM,
    /// strided with row-major indexing
    SRM,
    /// strided with column-major indexing
    SCM,
    /// packed upper triangle
    UT,
    /// dynamic matrix with row vector layout
    RVD,
    /// dynamic matrix with column vector layout
    CVD,
    /// row vector
    RV,
    /// column vector
    CV,
    /// strided row vector
    SRV,
    /// strided column vector
    SCV,
    /// fixed row major (dims select the type)
    FR,
    /// fixed column major
    FC,
    /// fixed row vector
    FRV,
    /// fixed column vector
    FCV,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Store {
    /// the zero constructor
    Own,
    /// heap container, via from_data
    Vec,
    /// mutable slice container, via from_data
    Slice,
    /// array container of 64 items, via from_data
    Arr,
    /// from_pointer (mutable)
    Ptr,
    /// a mutable block of a dense parent
    Block,
}

pub const ARR: usize = 64;

/// A matrix under test. Everything is resolved: element (r, c) lies at buffer position off + sr*r + sc*c
/// (packed position for UT), the container holds `clen` items from `off` on, the buffer holds `total`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct MSpec {
    pub kind: Kind,
    pub store: Store,
    pub rows: usize,
    pub cols: usize,
    pub sr: usize,
    pub sc: usize,
    pub off: usize,
    pub clen: usize,
    pub total: usize,
    /// Block store: position of the block and other dimension of the parent
    pub top: usize,
    pub left: usize,
    pub pdim: (usize, usize),
}

impl MSpec {
    pub fn order(&self) -> Order {
        match self.kind {
            Kind::RM | Kind::SRM | Kind::RVD | Kind::RV | Kind::SRV | Kind::FR | Kind::FRV => Order::Row,
            Kind::UT => Order::Upper,
            _ => Order::Col,
        }
    }
    pub fn shape(&self) -> Shape {
        Shape { order: self.order(), rows: self.rows, cols: self.cols }
    }
    pub fn n(&self) -> usize {
        self.shape().n()
    }
    /// raw position relative to the first element
    pub fn raw(&self, r: usize, c: usize) -> usize {
        if self.kind == Kind::UT {
            self.shape().idx(r, c)
        } else {
            self.sr * r + self.sc * c
        }
    }
    pub fn pos(&self, r: usize, c: usize) -> usize {
        self.off + self.raw(r, c)
    }
    /// number of positions the layout spans
    pub fn extent(&self) -> usize {
        if self.n() == 0 {
            0
        } else if self.kind == Kind::UT {
            self.n()
        } else {
            self.sr * (self.rows - 1) + self.sc * (self.cols - 1) + 1
        }
    }
    /// no two elements share a position
    pub fn injective(&self) -> bool {
        if self.kind == Kind::UT || self.n() <= 1 {
            return true;
        }
        let (r, c, sr, sc) = (self.rows, self.cols, self.sr, self.sc);
        if r == 1 {
            return sc > 0;
        }
        if c == 1 {
            return sr > 0;
        }
        if sr == 0 || sc == 0 {
            return false;
        }
        // collision iff sr*dr == sc*dc with 0<dr<r, 0<dc<c
        let g = gcd(sr, sc);
        !(sc / g < r && sr / g < c)
    }
    pub fn is_vec(&self) -> bool {
        matches!(self.kind, Kind::RV | Kind::CV | Kind::SRV | Kind::SCV | Kind::FRV | Kind::FCV)
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?}/{:?} {}x{} stride ({},{}) container {} at {}",
            self.kind, self.store, self.rows, self.cols, self.sr, self.sc, self.clen, self.off
        )
    }
    /// strides that the layout must report (None: not defined for this layout)
    pub fn reported_stride(&self) -> Option<(usize, usize)> {
        match self.kind {
            Kind::UT => None,
            _ => Some((self.sr, self.sc)),
        }
    }
}

pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

// ---------------------------------------------------------------------------------------------------------
// object-safe access to matrices

pub trait View<T: Sc> {
    fn dim(&self) -> (usize, usize);
    fn nelems(&self) -> usize;
    fn rd(&self, r: usize, c: usize) -> T;
    fn get1(&self, i: usize) -> T;
    unsafe fn getu(&self, r: usize, c: usize) -> T;
    unsafe fn getu1(&self, i: usize) -> T;
    fn c12(&self, i: usize) -> (usize, usize);
    fn c21(&self, r: usize, c: usize) -> usize;
    fn stride(&self) -> (usize, usize);
    fn size_ns(&self) -> (usize, usize);
}

impl<T: Sc, I: MatrixTrait<T, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> View<T>
    for Matrix<T, I, L, RS, CS>
{
    fn dim(&self) -> (usize, usize) {
        Matrix::dim(self)
    }
    fn nelems(&self) -> usize {
        self.layout().number_of_elements()
    }
    fn rd(&self, r: usize, c: usize) -> T {
        RandomAccess::get(self, r, c)
    }
    fn get1(&self, i: usize) -> T {
        self.get1d(i)
    }
    unsafe fn getu(&self, r: usize, c: usize) -> T {
        self.get_unchecked(r, c)
    }
    unsafe fn getu1(&self, i: usize) -> T {
        self.get1d_unchecked(i)
    }
    fn c12(&self, i: usize) -> (usize, usize) {
        self.layout().convert_1d_2d(i)
    }
    fn c21(&self, r: usize, c: usize) -> usize {
        self.layout().convert_2d_1d(r, c)
    }
    fn stride(&self) -> (usize, usize) {
        self.layout().stride()
    }
    fn size_ns(&self) -> (usize, usize) {
        (RS::N, CS::N)
    }
}

pub trait ViewMut<T: Sc>: View<T> {
    fn at_mut(&mut self, r: usize, c: usize) -> &mut T;
    fn at1_mut(&mut self, i: usize) -> &mut T;
    unsafe fn atu_mut(&mut self, r: usize, c: usize) -> &mut T;
    unsafe fn atu1_mut(&mut self, i: usize) -> &mut T;
}

impl<T: Sc, I: MatrixTraitMut<T, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> ViewMut<T>
    for Matrix<T, I, L, RS, CS>
{
    fn at_mut(&mut self, r: usize, c: usize) -> &mut T {
        self.get_mut(r, c)
    }
    fn at1_mut(&mut self, i: usize) -> &mut T {
        self.get1d_mut(i)
    }
    unsafe fn atu_mut(&mut self, r: usize, c: usize) -> &mut T {
        self.get_unchecked_mut(r, c)
    }
    unsafe fn atu1_mut(&mut self, i: usize) -> &mut T {
        self.get1d_unchecked_mut(i)
    }
}

/// Matrices that own or borrow storage (possibly read-only).
pub trait Held<T: Sc>: View<T> {
    fn slice(&self, first: usize, last: usize) -> &[T];
    fn ptr(&self) -> *const T;
}

/// Algebra on a matrix: wrappers, scalar products, sums. Separate from `Held` to keep compile times down.
pub trait Alg<T: Sc>: Held<T> {
    /// run a closure on a shared-reference wrapper of this matrix, nested `depth` times
    fn wrap(&self, depth: usize, f: &mut dyn FnMut(&dyn View<T>));
    /// scalar products in several forms, as views
    fn scaled(&self, s: T, form: usize, f: &mut dyn FnMut(&dyn View<T>));
    /// s1 * (s2 * self) in several forms
    fn scaled2(&self, s1: T, s2: T, form: usize, f: &mut dyn FnMut(&dyn View<T>));
    /// sums with itself in four ownership forms
    fn doubled(&self, form: usize, f: &mut dyn FnMut(&dyn View<T>));
}

/// Matrices whose storage can be written.
pub trait Stored<T: Sc>: ViewMut<T> + Held<T> {
    fn for_each(&mut self, f: &mut dyn FnMut(&mut T));
    fn slice_mut(&mut self, first: usize, last: usize) -> &mut [T];
    fn ptr_mut(&mut self) -> *mut T;
    fn fill(&mut self, rng: &mut dyn RngCore);
    /// run a closure on a mutable-reference wrapper of this matrix, nested `depth` times
    fn wrap_mut(&mut self, depth: usize, f: &mut dyn FnMut(&mut dyn ViewMut<T>));
    /// a shared-reference wrapper of a mutable-reference wrapper
    fn wrap_both(&mut self, f: &mut dyn FnMut(&dyn View<T>));
}

/// Dynamic x Dynamic matrices: these can be evaluated.
pub trait DynHeld<T: Sc>: Held<T> {
    fn eval(&self) -> Box<dyn Stored<T>>;
    fn eval_wrapped(&self, depth: usize) -> Box<dyn Stored<T>>;
    fn eval_scaled(&self, s: T, form: usize) -> Box<dyn Stored<T>>;
    fn eval_doubled(&self, form: usize) -> Box<dyn Stored<T>>;
}

pub trait DynStored<T: Sc>: Stored<T> + DynHeld<T> {}

pub trait AlgStored<T: Sc>: Stored<T> + Alg<T> {}
impl<T: Sc, M: Stored<T> + Alg<T>> AlgStored<T> for M {}

/// Matrices of which blocks can be taken.
pub trait Blk<T: Sc>: DynHeld<T> {
    fn blk(&self, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>));
}
pub trait BlkMut<T: Sc>: Blk<T> + DynStored<T> {
    fn blk_mut(&mut self, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>));
    /// row-major only
    fn split(&mut self, at: (usize, usize), f: &mut dyn FnMut([&mut dyn BlkMut<T>; 4]));
}

type Base<T, D, L, RS, CS> = Matrix<T, householder::base_matrix::BaseMatrix<T, D, L, RS, CS>, L, RS, CS>;

macro_rules! with_scaled {
    ($self:ident, $s:ident, $form:ident, $x:ident => $e:expr) => {
        match $form % 5 {
            0 => { let $x = T::s_rm($s, $self); $e }
            1 => { let $x = T::rm_s($self, $s); $e }
            2 => { let $x = T::s_m($s, Matrix::from_ref($self)); $e }
            3 => { let $x = T::m_s(Matrix::from_ref($self), $s); $e }
            _ => {
                let m: Matrix<T, MatrixRef<'_, T, _, L, RS, CS>, L, RS, CS> = Matrix::new(MatrixRef::new($self));
                let $x = T::s_rm($s, &m);
                $e
            }
        }
    };
}
macro_rules! with_doubled {
    ($self:ident, $form:ident, $x:ident => $e:expr) => {
        match $form % 4 {
            0 => { let $x = $self + $self; $e }
            1 => { let $x = Matrix::from_ref($self) + $self; $e }
            2 => { let $x = $self + Matrix::from_ref($self); $e }
            _ => { let $x = Matrix::from_ref($self) + Matrix::from_ref($self); $e }
        }
    };
}

impl<T, D, L, RS, CS> Held<T> for Base<T, D, L, RS, CS>
where
    T: Sc,
    D: DataContainer<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout>,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn slice(&self, first: usize, last: usize) -> &[T] {
        self.get_slice(first, last)
    }
    fn ptr(&self) -> *const T {
        self.get_pointer()
    }
}

impl<T, D, L, RS, CS> Alg<T> for Base<T, D, L, RS, CS>
where
    T: Sc,
    D: DataContainer<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout>,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn wrap(&self, depth: usize, f: &mut dyn FnMut(&dyn View<T>)) {
        let m = Matrix::from_ref(self);
        match depth {
            0 => f(self),
            1 => f(&m),
            2 => f(&Matrix::from_ref(&m)),
            _ => f(&Matrix::from_ref(&Matrix::from_ref(&m))),
        }
    }
    fn scaled(&self, s: T, form: usize, f: &mut dyn FnMut(&dyn View<T>)) {
        with_scaled!(self, s, form, x => f(&x))
    }
    fn scaled2(&self, s1: T, s2: T, form: usize, f: &mut dyn FnMut(&dyn View<T>)) {
        match form % 4 {
            0 => f(&T::s_m(s1, T::s_rm(s2, self))),
            1 => f(&T::m_s(T::s_rm(s2, self), s1)),
            2 => f(&T::s_rm(s1, &T::rm_s(self, s2))),
            _ => f(&T::rm_s(&T::m_s(Matrix::from_ref(self), s2), s1)),
        }
    }
    fn doubled(&self, form: usize, f: &mut dyn FnMut(&dyn View<T>)) {
        with_doubled!(self, form, x => f(&x))
    }
}

impl<T, D, L, RS, CS> Stored<T> for Base<T, D, L, RS, CS>
where
    T: Sc,
    D: DataContainerMut<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout>,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn for_each(&mut self, f: &mut dyn FnMut(&mut T)) {
        GenericBaseMatrixMut::for_each(self, |x| f(x))
    }
    fn slice_mut(&mut self, first: usize, last: usize) -> &mut [T] {
        self.get_slice_mut(first, last)
    }
    fn ptr_mut(&mut self) -> *mut T {
        self.get_pointer_mut()
    }
    fn fill(&mut self, rng: &mut dyn RngCore) {
        T::fill_rng(self, rng)
    }
    fn wrap_mut(&mut self, depth: usize, f: &mut dyn FnMut(&mut dyn ViewMut<T>)) {
        if depth == 0 {
            return f(self);
        }
        let mut m: Matrix<T, MatrixRefMut<'_, T, _, L, RS, CS>, L, RS, CS> = Matrix::new(MatrixRefMut::new(self));
        match depth {
            1 => f(&mut m),
            2 => f(&mut Matrix::<T, MatrixRefMut<'_, T, _, L, RS, CS>, L, RS, CS>::new(MatrixRefMut::new(&mut m))),
            _ => {
                let mut m2: Matrix<T, MatrixRefMut<'_, T, _, L, RS, CS>, L, RS, CS> = Matrix::new(MatrixRefMut::new(&mut m));
                f(&mut Matrix::<T, MatrixRefMut<'_, T, _, L, RS, CS>, L, RS, CS>::new(MatrixRefMut::new(&mut m2)))
            }
        }
    }
    fn wrap_both(&mut self, f: &mut dyn FnMut(&dyn View<T>)) {
        let m: Matrix<T, MatrixRefMut<'_, T, _, L, RS, CS>, L, RS, CS> = Matrix::new(MatrixRefMut::new(self));
        f(&Matrix::from_ref(&m))
    }
}

impl<T, D, L> DynHeld<T> for Base<T, D, L, Dynamic, Dynamic>
where
    T: Sc,
    D: DataContainer<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    fn eval(&self) -> Box<dyn Stored<T>> {
        Box::new(Matrix::eval(self))
    }
    fn eval_wrapped(&self, depth: usize) -> Box<dyn Stored<T>> {
        let m = Matrix::from_ref(self);
        match depth {
            0 => Box::new(Matrix::eval(self)),
            1 => Box::new(m.eval()),
            _ => Box::new(Matrix::from_ref(&m).eval()),
        }
    }
    fn eval_scaled(&self, s: T, form: usize) -> Box<dyn Stored<T>> {
        type RS = Dynamic;
        type CS = Dynamic;
        with_scaled!(self, s, form, x => Box::new(x.eval()))
    }
    fn eval_doubled(&self, form: usize) -> Box<dyn Stored<T>> {
        with_doubled!(self, form, x => Box::new(x.eval()))
    }
}
impl<T, D, L> DynStored<T> for Base<T, D, L, Dynamic, Dynamic>
where
    T: Sc,
    D: DataContainerMut<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
}

/// Layouts whose matrices have blocks.
pub trait BlkLayout: MkLayout {
    fn blk<T: Sc, D: DataContainer<Item = T>>(
        m: &Base<T, D, Self, Dynamic, Dynamic>, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>),
    ) where Self: Sized;
    fn blk_mut<T: Sc, D: DataContainerMut<Item = T>>(
        m: &mut Base<T, D, Self, Dynamic, Dynamic>, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>),
    ) where Self: Sized;
    fn split<T: Sc, D: DataContainerMut<Item = T>>(
        _m: &mut Base<T, D, Self, Dynamic, Dynamic>, _at: (usize, usize), _f: &mut dyn FnMut([&mut dyn BlkMut<T>; 4]),
    ) where Self: Sized {
        unreachable!("split_in_four_mut only exists for row-major matrices")
    }
}
macro_rules! blk_layout {
    ($L:ty $(, $split:item)?) => {
        impl BlkLayout for $L {
            fn blk<T: Sc, D: DataContainer<Item = T>>(
                m: &Base<T, D, Self, Dynamic, Dynamic>, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>),
            ) {
                f(&m.block(tl, dim))
            }
            fn blk_mut<T: Sc, D: DataContainerMut<Item = T>>(
                m: &mut Base<T, D, Self, Dynamic, Dynamic>, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>),
            ) {
                f(&mut m.block_mut(tl, dim))
            }
            $($split)?
        }
    };
}
blk_layout!(RowMajor,
    fn split<T: Sc, D: DataContainerMut<Item = T>>(
        m: &mut Base<T, D, Self, Dynamic, Dynamic>, at: (usize, usize), f: &mut dyn FnMut([&mut dyn BlkMut<T>; 4]),
    ) {
        let (mut a, mut b, mut c, mut d) = m.split_in_four_mut(at);
        f([&mut a, &mut b, &mut c, &mut d])
    });
blk_layout!(ColumnMajor);
blk_layout!(ArbitraryStrideRowMajor);
blk_layout!(ArbitraryStrideColumnMajor);

impl<T, D, L> Blk<T> for Base<T, D, L, Dynamic, Dynamic>
where
    T: Sc,
    D: DataContainer<Item = T>,
    L: BlkLayout,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    fn blk(&self, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>)) {
        L::blk(self, tl, dim, f)
    }
}
impl<T, D, L> BlkMut<T> for Base<T, D, L, Dynamic, Dynamic>
where
    T: Sc,
    D: DataContainerMut<Item = T>,
    L: BlkLayout,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    fn blk_mut(&mut self, tl: (usize, usize), dim: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>)) {
        L::blk_mut(self, tl, dim, f)
    }
    fn split(&mut self, at: (usize, usize), f: &mut dyn FnMut([&mut dyn BlkMut<T>; 4])) {
        L::split(self, at, f)
    }
}

// ---------------------------------------------------------------------------------------------------------
// construction

pub trait MkLayout: LayoutType {
    fn mk(s: &MSpec) -> Self;
}
impl MkLayout for RowMajor {
    fn mk(s: &MSpec) -> Self {
        RowMajor::new((s.rows, s.cols))
    }
}
impl MkLayout for ColumnMajor {
    fn mk(s: &MSpec) -> Self {
        ColumnMajor::new((s.rows, s.cols))
    }
}
impl MkLayout for ArbitraryStrideRowMajor {
    fn mk(s: &MSpec) -> Self {
        ArbitraryStrideRowMajor::new((s.rows, s.cols), (s.sr, s.sc))
    }
}
impl MkLayout for ArbitraryStrideColumnMajor {
    fn mk(s: &MSpec) -> Self {
        ArbitraryStrideColumnMajor::new((s.rows, s.cols), (s.sr, s.sc))
    }
}
impl MkLayout for UpperTriangular {
    fn mk(s: &MSpec) -> Self {
        UpperTriangular::new(s.rows)
    }
}
impl MkLayout for RowVector {
    fn mk(s: &MSpec) -> Self {
        RowVector::new(s.cols)
    }
}
impl MkLayout for ColumnVector {
    fn mk(s: &MSpec) -> Self {
        ColumnVector::new(s.rows)
    }
}
impl MkLayout for ArbitraryStrideRowVector {
    fn mk(s: &MSpec) -> Self {
        ArbitraryStrideRowVector::new(s.cols, s.sc)
    }
}
impl MkLayout for ArbitraryStrideColumnVector {
    fn mk(s: &MSpec) -> Self {
        ArbitraryStrideColumnVector::new(s.rows, s.sr)
    }
}

fn copy_in<T: Sc>(m: &mut dyn Stored<T>, src: &[T]) {
    unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), m.ptr_mut(), src.len()) }
}
fn copy_out<T: Sc>(m: &dyn Stored<T>, dst: &mut [T]) {
    unsafe { std::ptr::copy_nonoverlapping(m.ptr(), dst.as_mut_ptr(), dst.len()) }
}

macro_rules! builders {
    (@arr yes, $s:ident, $buf:ident, $part:ident, $f:ident, $L:ident, $R:ty, $C:ty) => {{
        assert!($s.clen == ARR);
        let mut m = GenericBaseMatrixMut::<T, $L, _, $R, $C>::from_data(ArrayContainer::<T, ARR>::new(), $L::mk($s));
        copy_in(&mut m, &$buf[$part.clone()]);
        $f(&mut m);
        copy_out(&m, &mut $buf[$part]);
    }};
    (@arr no, $s:ident, $buf:ident, $part:ident, $f:ident, $L:ident, $R:ty, $C:ty) => {
        panic!("no array containers here")
    };
    ($generic:ident, $owned:ident, $Tr:ident, $LB:ident, [$($RS:ident)?], $R:ty, $C:ty, $extra:tt) => {
        fn $generic<T: Sc, L: $LB $(, $RS: SizeIdentifier, CS: SizeIdentifier)?>(s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn $Tr<T>))
        where
            L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
        {
            let part = s.off..s.off + s.clen;
            match s.store {
                Store::Vec => {
                    let mut m = GenericBaseMatrixMut::<T, L, _, $R, $C>::from_data(VectorContainer::new(s.clen), L::mk(s));
                    copy_in(&mut m, &buf[part.clone()]);
                    f(&mut m);
                    copy_out(&m, &mut buf[part]);
                }
                Store::Arr => builders!(@arr $extra, s, buf, part, f, L, $R, $C),
                Store::Slice => {
                    let mut m =
                        GenericBaseMatrixMut::<T, L, _, $R, $C>::from_data(SliceContainerMut::new(&mut buf[part]), L::mk(s));
                    f(&mut m);
                }
                _ => panic!("store {:?} not available for {:?}", s.store, s.kind),
            }
        }
        fn $owned<T: Sc, M: $Tr<T>>(mut m: M, s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn $Tr<T>)) {
            let part = s.off..s.off + s.clen;
            copy_in(&mut m, &buf[part.clone()]);
            f(&mut m);
            copy_out(&m, &mut buf[part]);
        }
    };
}
builders!(gen_stored, owned_stored, Stored, MkLayout, [RS], RS, CS, yes);
builders!(gen_dyn, owned_dyn, DynStored, MkLayout, [], Dynamic, Dynamic, no);
builders!(gen_alg, owned_alg, AlgStored, MkLayout, [RS], RS, CS, no);
builders!(gen_blk, owned_blk, BlkMut, BlkLayout, [], Dynamic, Dynamic, no);

macro_rules! fixed_mat {
    ($own:ident, $T:ty, $L:ty, $s:expr, $buf:expr, $f:expr, $(($r:literal, $c:literal, $R:ty, $C:ty, $n:literal)),*) => {
        match ($s.rows, $s.cols) {
            $(($r, $c) => $own::<$T, _>(
                Matrix::<$T, householder::base_matrix::BaseMatrix<$T, ArrayContainer<$T, $n>, $L, $R, $C>, $L, $R, $C>::zeros_from_dim(),
                $s, $buf, $f),)*
            d => panic!("no fixed matrix {:?}", d),
        }
    };
}
macro_rules! fixed_vec {
    ($own:ident, $T:ty, $L:ty, $s:expr, $buf:expr, $f:expr, $(($r:literal, $c:literal, $R:ty, $C:ty, $n:literal)),*) => {
        match ($s.rows, $s.cols) {
            $(($r, $c) => $own::<$T, _>(
                Matrix::<$T, householder::base_matrix::BaseMatrix<$T, ArrayContainer<$T, $n>, $L, $R, $C>, $L, $R, $C>::zeros_from_length(),
                $s, $buf, $f),)*
            d => panic!("no fixed vector {:?}", d),
        }
    };
}

/// Fixed dimensions for which algebra is compiled.
pub fn alg_fixed(s: &MSpec) -> bool {
    match s.kind {
        Kind::FR => matches!((s.rows, s.cols), (3, 3) | (2, 3)),
        Kind::FC => matches!((s.rows, s.cols), (2, 2) | (3, 2)),
        _ => true,
    }
}

/// Dimensions of the fixed-size types that can be constructed.
pub const FIXED: [(usize, usize); 6] = [(2, 2), (1, 2), (3, 3), (1, 3), (2, 3), (3, 2)];


/// matrices from pointers and blocks: common to all builders
macro_rules! ptr_and_block {
    ($s:ident, $buf:ident, $f:ident, $p:tt, $rest:expr) => {
        match ($s.kind, $s.store) {
            (Kind::RM, Store::Ptr) => unsafe {
                $f(&mut SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_pointer($buf.as_mut_ptr().add($s.off), ($s.rows, $s.cols)))
            },
            (Kind::CM, Store::Ptr) => unsafe {
                $f(&mut SliceMatrixMut::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer($buf.as_mut_ptr().add($s.off), ($s.rows, $s.cols)))
            },
            (Kind::SRM, Store::Ptr) => unsafe {
                $f(&mut SliceMatrixMut::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(
                    $buf.as_mut_ptr().add($s.off), ($s.rows, $s.cols), ($s.sr, $s.sc)))
            },
            (Kind::SCM, Store::Ptr) => unsafe {
                $f(&mut SliceMatrixMut::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(
                    $buf.as_mut_ptr().add($s.off), ($s.rows, $s.cols), ($s.sr, $s.sc)))
            },
            (Kind::SRM, Store::Block) => {
                let mut p = MatrixMutOver::<T, RowMajor>::from_data(SliceContainerMut::new($buf), RowMajor::new($s.pdim));
                $f(&mut p.block_mut(($s.top, $s.left), ($s.rows, $s.cols)))
            }
            (Kind::SCM, Store::Block) => {
                let mut p = MatrixMutOver::<T, ColumnMajor>::from_data(SliceContainerMut::new($buf), ColumnMajor::new($s.pdim));
                $f(&mut p.block_mut(($s.top, $s.left), ($s.rows, $s.cols)))
            }
            $p => $rest,
        }
    };
}

/// Build the matrix `s` over `buf` and call `f` on it; afterwards `buf` shows the final storage.
pub fn with_stored<T: Sc>(s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn Stored<T>)) {
    use Kind::*;
    assert_eq!(buf.len(), s.total);
    ptr_and_block!(s, buf, f, p, match p {
        (RM, Store::Own) => owned_stored(MatrixD::<T, RowMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (CM, Store::Own) => owned_stored(MatrixD::<T, ColumnMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (UT, Store::Own) => owned_stored(UpperTriangularMatrix::<T>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (RVD, Store::Own) => owned_stored(MatrixD::<T, RowVector>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (CVD, Store::Own) => owned_stored(MatrixD::<T, ColumnVector>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (RV, Store::Own) => {
            if s.cols % 2 == 0 {
                owned_stored(RowVectorD::<T>::zeros_from_length(s.cols), s, buf, f)
            } else {
                owned_stored(RowVectorD::<T>::zeros_from_dim(s.rows, s.cols), s, buf, f)
            }
        }
        (CV, Store::Own) => {
            if s.rows % 2 == 0 {
                owned_stored(ColumnVectorD::<T>::zeros_from_length(s.rows), s, buf, f)
            } else {
                owned_stored(ColumnVectorD::<T>::zeros_from_dim(s.rows, s.cols), s, buf, f)
            }
        }
        (FR, Store::Own) => fixed_mat!(owned_stored, T, RowMajor, s, buf, f,
            (2, 2, Fixed2, Fixed2, 4), (1, 2, Fixed1, Fixed2, 2), (3, 3, Fixed3, Fixed3, 9), (1, 3, Fixed1, Fixed3, 3), (2, 3, Fixed2, Fixed3, 6), (3, 2, Fixed3, Fixed2, 6)),
        (FC, Store::Own) => fixed_mat!(owned_stored, T, ColumnMajor, s, buf, f,
            (2, 2, Fixed2, Fixed2, 4), (1, 2, Fixed1, Fixed2, 2), (3, 3, Fixed3, Fixed3, 9), (1, 3, Fixed1, Fixed3, 3), (2, 3, Fixed2, Fixed3, 6), (3, 2, Fixed3, Fixed2, 6)),
        (FRV, Store::Own) => fixed_vec!(owned_stored, T, RowVector, s, buf, f, (1, 2, Fixed1, Fixed2, 2), (1, 3, Fixed1, Fixed3, 3)),
        (FCV, Store::Own) => fixed_vec!(owned_stored, T, ColumnVector, s, buf, f, (2, 1, Fixed2, Fixed1, 2), (3, 1, Fixed3, Fixed1, 3)),
        (RM, _) => gen_stored::<T, RowMajor, Dynamic, Dynamic>(s, buf, f),
        (CM, _) => gen_stored::<T, ColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (SRM, _) => gen_stored::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>(s, buf, f),
        (SCM, _) => gen_stored::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (UT, _) => gen_stored::<T, UpperTriangular, Dynamic, Dynamic>(s, buf, f),
        (RVD, _) => gen_stored::<T, RowVector, Dynamic, Dynamic>(s, buf, f),
        (CVD, _) => gen_stored::<T, ColumnVector, Dynamic, Dynamic>(s, buf, f),
        (RV, _) => gen_stored::<T, RowVector, Fixed1, Dynamic>(s, buf, f),
        (CV, _) => gen_stored::<T, ColumnVector, Dynamic, Fixed1>(s, buf, f),
        (SRV, _) => gen_stored::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>(s, buf, f),
        (SCV, _) => gen_stored::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>(s, buf, f),
        (k, st) => panic!("no matrix {:?}/{:?}", k, st),
    })
}

/// Like `with_stored` with algebra; fixed kinds only in the dimensions of `ALG_FIXED`, no array containers otherwise.
pub fn with_alg<T: Sc>(s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn AlgStored<T>)) {
    use Kind::*;
    assert_eq!(buf.len(), s.total);
    let mut s = s.clone();
    match s.store {
        Store::Own if !matches!(s.kind, FR | FC | FRV | FCV) => s.store = Store::Vec,
        Store::Arr => s.store = Store::Slice,
        _ => {}
    }
    let s = &s;
    ptr_and_block!(s, buf, f, p, match p {
        (FR, Store::Own) => fixed_mat!(owned_alg, T, RowMajor, s, buf, f, (3, 3, Fixed3, Fixed3, 9), (2, 3, Fixed2, Fixed3, 6)),
        (FC, Store::Own) => fixed_mat!(owned_alg, T, ColumnMajor, s, buf, f, (2, 2, Fixed2, Fixed2, 4), (3, 2, Fixed3, Fixed2, 6)),
        (FRV, Store::Own) => fixed_vec!(owned_alg, T, RowVector, s, buf, f, (1, 2, Fixed1, Fixed2, 2), (1, 3, Fixed1, Fixed3, 3)),
        (FCV, Store::Own) => fixed_vec!(owned_alg, T, ColumnVector, s, buf, f, (2, 1, Fixed2, Fixed1, 2), (3, 1, Fixed3, Fixed1, 3)),
        (RM, _) => gen_alg::<T, RowMajor, Dynamic, Dynamic>(s, buf, f),
        (CM, _) => gen_alg::<T, ColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (SRM, _) => gen_alg::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>(s, buf, f),
        (SCM, _) => gen_alg::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (UT, _) => gen_alg::<T, UpperTriangular, Dynamic, Dynamic>(s, buf, f),
        (RVD, _) => gen_alg::<T, RowVector, Dynamic, Dynamic>(s, buf, f),
        (CVD, _) => gen_alg::<T, ColumnVector, Dynamic, Dynamic>(s, buf, f),
        (RV, _) => gen_alg::<T, RowVector, Fixed1, Dynamic>(s, buf, f),
        (CV, _) => gen_alg::<T, ColumnVector, Dynamic, Fixed1>(s, buf, f),
        (SRV, _) => gen_alg::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>(s, buf, f),
        (SCV, _) => gen_alg::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>(s, buf, f),
        (k, st) => panic!("no matrix {:?}/{:?}", k, st),
    })
}

/// Like `with_stored` for the kinds that can be evaluated.
pub fn with_dyn<T: Sc>(s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn DynStored<T>)) {
    use Kind::*;
    assert_eq!(buf.len(), s.total);
    let mut s = s.clone();
    if s.store == Store::Arr {
        s.store = Store::Slice
    }
    let s = &s;
    ptr_and_block!(s, buf, f, p, match p {
        (RM, Store::Own) => owned_dyn(MatrixD::<T, RowMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (CM, Store::Own) => owned_dyn(MatrixD::<T, ColumnMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (UT, Store::Own) => owned_dyn(UpperTriangularMatrix::<T>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (RVD, Store::Own) => owned_dyn(MatrixD::<T, RowVector>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (CVD, Store::Own) => owned_dyn(MatrixD::<T, ColumnVector>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (RM, _) => gen_dyn::<T, RowMajor>(s, buf, f),
        (CM, _) => gen_dyn::<T, ColumnMajor>(s, buf, f),
        (SRM, _) => gen_dyn::<T, ArbitraryStrideRowMajor>(s, buf, f),
        (SCM, _) => gen_dyn::<T, ArbitraryStrideColumnMajor>(s, buf, f),
        (UT, _) => gen_dyn::<T, UpperTriangular>(s, buf, f),
        (RVD, _) => gen_dyn::<T, RowVector>(s, buf, f),
        (CVD, _) => gen_dyn::<T, ColumnVector>(s, buf, f),
        (k, st) => panic!("no evaluable matrix {:?}/{:?}", k, st),
    })
}

/// Like `with_stored` for the kinds that have blocks.
pub fn with_blk<T: Sc>(s: &MSpec, buf: &mut [T], f: &mut dyn FnMut(&mut dyn BlkMut<T>)) {
    use Kind::*;
    assert_eq!(buf.len(), s.total);
    let mut s = s.clone();
    if s.store == Store::Arr {
        s.store = Store::Slice
    }
    let s = &s;
    ptr_and_block!(s, buf, f, p, match p {
        (RM, Store::Own) => owned_blk(MatrixD::<T, RowMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (CM, Store::Own) => owned_blk(MatrixD::<T, ColumnMajor>::zeros_from_dim(s.rows, s.cols), s, buf, f),
        (RM, _) => gen_blk::<T, RowMajor>(s, buf, f),
        (CM, _) => gen_blk::<T, ColumnMajor>(s, buf, f),
        (SRM, _) => gen_blk::<T, ArbitraryStrideRowMajor>(s, buf, f),
        (SCM, _) => gen_blk::<T, ArbitraryStrideColumnMajor>(s, buf, f),
        (k, st) => panic!("no matrix with blocks {:?}/{:?}", k, st),
    })
}

fn ro<T: Sc, L: MkLayout, RS: SizeIdentifier, CS: SizeIdentifier>(s: &MSpec, buf: &[T], f: &mut dyn FnMut(&dyn Held<T>))
where
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    let part = s.off..s.off + s.clen;
    f(&GenericBaseMatrix::<T, L, _, RS, CS>::from_data(SliceContainer::new(&buf[part]), L::mk(s)))
}

/// A read-only matrix over `buf`: from_pointer or block for those stores, otherwise a read-only slice container.
/// Not for fixed sizes.
pub fn with_ro<T: Sc>(s: &MSpec, buf: &[T], f: &mut dyn FnMut(&dyn Held<T>)) {
    use Kind::*;
    assert_eq!(buf.len(), s.total);
    match (s.kind, s.store) {
        (RM, Store::Ptr) => unsafe {
            f(&SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_pointer(buf.as_ptr().add(s.off), (s.rows, s.cols)))
        },
        (CM, Store::Ptr) => unsafe {
            f(&SliceMatrix::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(buf.as_ptr().add(s.off), (s.rows, s.cols)))
        },
        (SRM, Store::Ptr) => unsafe {
            f(&SliceMatrix::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(buf.as_ptr().add(s.off), (s.rows, s.cols), (s.sr, s.sc)))
        },
        (SCM, Store::Ptr) => unsafe {
            f(&SliceMatrix::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(buf.as_ptr().add(s.off), (s.rows, s.cols), (s.sr, s.sc)))
        },
        (SRM, Store::Block) => {
            let p = SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(buf), RowMajor::new(s.pdim));
            f(&p.block((s.top, s.left), (s.rows, s.cols)))
        }
        (SCM, Store::Block) => {
            let p = SliceMatrix::<T, ColumnMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(buf), ColumnMajor::new(s.pdim));
            f(&p.block((s.top, s.left), (s.rows, s.cols)))
        }
        (RM, _) => ro::<T, RowMajor, Dynamic, Dynamic>(s, buf, f),
        (CM, _) => ro::<T, ColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (SRM, _) => ro::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>(s, buf, f),
        (SCM, _) => ro::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>(s, buf, f),
        (UT, _) => ro::<T, UpperTriangular, Dynamic, Dynamic>(s, buf, f),
        (RVD, _) => ro::<T, RowVector, Dynamic, Dynamic>(s, buf, f),
        (CVD, _) => ro::<T, ColumnVector, Dynamic, Dynamic>(s, buf, f),
        (RV, _) => ro::<T, RowVector, Fixed1, Dynamic>(s, buf, f),
        (CV, _) => ro::<T, ColumnVector, Dynamic, Fixed1>(s, buf, f),
        (SRV, _) => ro::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>(s, buf, f),
        (SCV, _) => ro::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>(s, buf, f),
        (k, st) => panic!("no read-only matrix {:?}/{:?}", k, st),
    }
}

pub type MatrixMutOver<'a, T, L> = SliceMatrixMut<'a, T, L, Dynamic, Dynamic>;

// ---------------------------------------------------------------------------------------------------------
// the model

/// Expected contents of the whole buffer of a matrix.
#[derive(Clone)]
pub struct Model<T: Sc> {
    pub spec: MSpec,
    pub buf: Vec<T>,
}

impl<T: Sc> Model<T> {
    pub fn new(spec: &MSpec, fill: Fill, salt: u64) -> Self {
        Model { spec: spec.clone(), buf: (0..spec.total).map(|i| elem(fill, salt, i)).collect() }
    }
    pub fn at(&self, r: usize, c: usize) -> T {
        self.buf[self.spec.pos(r, c)]
    }
    pub fn at1(&self, i: usize) -> T {
        let (r, c) = self.spec.shape().at(i);
        self.at(r, c)
    }
    pub fn set(&mut self, r: usize, c: usize, v: T) {
        let p = self.spec.pos(r, c);
        self.buf[p] = v
    }
    /// The real buffer equals the expected one everywhere (elements, padding, surroundings).
    pub fn check_buf(&self, real: &[T]) -> Res {
        for (i, (a, b)) in real.iter().zip(&self.buf).enumerate() {
            if !a.same(*b) {
                let what = self.what_is(i);
                return fail(format!(
                    "{}: storage position {} ({}) holds {} but should hold {}",
                    self.spec.describe(),
                    i,
                    what,
                    show(*a),
                    show(*b)
                ));
            }
        }
        Ok(())
    }
    pub fn what_is(&self, pos: usize) -> String {
        let sh = self.spec.shape();
        for i in 0..sh.n() {
            let (r, c) = sh.at(i);
            if self.spec.pos(r, c) == pos {
                return format!("element ({r},{c})");
            }
        }
        "not an element".into()
    }
    pub fn check_view(&self, m: &dyn View<T>, full: bool) -> Res {
        let sh = self.spec.shape();
        check_view(m, sh, &self.spec.describe(), full, &|r, c| self.at(r, c))
    }
}

/// All read paths of `m` agree with `want`. With `full` every path is tried on every element; otherwise
/// the path rotates with the element.
pub fn check_view<T: Sc>(m: &dyn View<T>, sh: Shape, what: &str, full: bool, want: &dyn Fn(usize, usize) -> T) -> Res {
    if m.dim() != (sh.rows, sh.cols) {
        return fail(format!("{what}: dimension {:?}, should be {:?}", m.dim(), (sh.rows, sh.cols)));
    }
    if m.nelems() != sh.n() {
        return fail(format!("{what}: {} elements, should be {}", m.nelems(), sh.n()));
    }
    let n = sh.n();
    let (mut r, mut c) = if n > 0 { sh.at(0) } else { (0, 0) };
    for i in 0..n {
        if i > 0 {
            // next element in the documented order
            match sh.order {
                Order::Row => {
                    c += 1;
                    if c == sh.cols {
                        c = 0;
                        r += 1
                    }
                }
                Order::Col => {
                    r += 1;
                    if r == sh.rows {
                        r = 0;
                        c += 1
                    }
                }
                Order::Upper => {
                    c += 1;
                    if c == sh.cols {
                        r -= 1;
                        c = r
                    }
                }
            }
        }
        let w = want(r, c);
        let one = |path: usize| -> Res {
            let (v, name) = match path {
                0 => (m.rd(r, c), "get"),
                1 => (m.get1(i), "get1d"),
                2 => (unsafe { m.getu(r, c) }, "get_unchecked"),
                _ => (unsafe { m.getu1(i) }, "get1d_unchecked"),
            };
            if !v.same(w) {
                return fail(format!(
                    "{what}: {name} of element ({r},{c}) (linear {i}) gives {}, should be {}",
                    show(v),
                    show(w)
                ));
            }
            Ok(())
        };
        if full {
            for p in 0..4 {
                one(p)?;
            }
        } else {
            one(i % 4)?;
            one((i / 4 + 1) % 4)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// generators

/// One dimension: mostly small, sometimes around powers of two.
pub fn dim1() -> BoxedStrategy<usize> {
    prop_oneof![
        12 => 1usize..=5,
        6 => 0usize..=9,
        3 => 6usize..=40,
        2 => prop::sample::select(vec![7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]),
    ]
    .boxed()
}

/// A pair of dimensions, sometimes large or long and thin.
pub fn dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        60 => (dim1(), dim1()),
        1 => (1usize..=130, 1usize..=130),
        4 => (1usize..=3, prop::sample::select(vec![255usize, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049])),
        4 => (prop::sample::select(vec![255usize, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]), 1usize..=3),
    ]
    .boxed()
}

pub fn small_dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![8 => (1usize..=5, 1usize..=5), 2 => (0usize..=8, 0usize..=8), 1 => (5usize..=20, 5usize..=20)].boxed()
}

/// rarely very large (tens of thousands of elements)
pub fn big_dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        4 => (130usize..=300, 130usize..=300),
        4 => (20usize..=140, 20usize..=140),
        2 => (1usize..=2, 4000usize..=70000),
        2 => (4000usize..=70000, 1usize..=2),
    ]
    .boxed()
}

/// More than half a million elements, which 19 or 20 bits no longer count
pub fn huge_dims_lite() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        12 => (1020usize..=1100, 1020usize..=1100),
        5 => (1usize..=2, 524_287usize..=1_100_000),
        5 => (524_287usize..=1_100_000, 1usize..=2),
    ]
    .boxed()
}
/// Rarely also more than the consecutive integers of an f32
pub fn huge_dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        22 => huge_dims_lite(),
        1 => (1usize..=1, 16_777_200usize..=16_777_300),
        1 => (16_777_200usize..=16_777_300, 1usize..=1),
    ]
    .boxed()
}

pub const ALL_KINDS: [Kind; 22] = [
    Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::UT, Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::UT, Kind::SRM,
    Kind::SCM, Kind::RVD, Kind::CVD, Kind::RV, Kind::CV, Kind::SRV, Kind::SCV, Kind::FR, Kind::FC, Kind::FRV, Kind::FCV,
];
/// kinds that can be evaluated
pub const DYN_KINDS: [Kind; 7] = [Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::UT, Kind::RVD, Kind::CVD];
/// kinds with a read-only form
pub const RO_KINDS: [Kind; 11] = [
    Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::UT, Kind::RVD, Kind::CVD, Kind::RV, Kind::CV, Kind::SRV, Kind::SCV,
];
pub const DYN_MATS: [Kind; 4] = [Kind::RM, Kind::CM, Kind::SRM, Kind::SCM];

pub fn ty() -> BoxedStrategy<crate::scal::Ty> {
    use crate::scal::Ty::*;
    prop::sample::select(vec![F64, F32, C64, C32]).boxed()
}

pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        4 => Just(Fill::Index),
        1 => any::<u64>().prop_map(Fill::Ints),
        1 => any::<u64>().prop_map(Fill::Unit),
        1 => any::<u64>().prop_map(Fill::Wide),
        2 => any::<u64>().prop_map(Fill::Special),
    ]
    .boxed()
}

/// Strides of a strided matrix: dense, padded, transposed, interleaved (still one position per element), or --
/// when `overlap` -- anything including zero.
fn strides(rows: usize, cols: usize, overlap: bool) -> BoxedStrategy<(usize, usize)> {
    let inj = prop_oneof![
        4 => (1usize..=3, 0usize..=4).prop_map(move |(sc, p)| (cols.max(1).saturating_sub(1) * sc + 1 + p, sc)),
        3 => (1usize..=3, 0usize..=4).prop_map(move |(sr, p)| (sr, rows.max(1).saturating_sub(1) * sr + 1 + p)),
        1 => (0usize..=2, 0usize..=2).prop_map(move |(a, b)| {
            // interleaved: coprime strides at least as large as the other dimension
            let sr = cols.max(1) + a;
            let mut sc = rows.max(1) + b;
            while gcd(sr, sc) != 1 { sc += 1; }
            (sr, sc)
        }),
    ];
    if overlap {
        prop_oneof![6 => inj, 2 => (0usize..=4, 0usize..=4)].boxed()
    } else {
        inj.boxed()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct GenOpts {
    /// allow strides that give two elements one position
    pub overlap: bool,
    pub empty: bool,
}

/// Resolve a specification for the given kind and dimension.
pub fn spec_for(kind: Kind, dims: (usize, usize), o: GenOpts) -> BoxedStrategy<MSpec> {
    use Kind::*;
    let (mut rows, mut cols) = dims;
    if !o.empty {
        rows = rows.max(1);
        cols = cols.max(1);
    }
    match kind {
        UT => cols = rows,
        RVD | RV | SRV => rows = 1,
        CVD | CV | SCV => cols = 1,
        FR | FC => {
            let d = FIXED[(rows * 7 + cols) % 6];
            rows = d.0;
            cols = d.1;
        }
        FRV => {
            rows = 1;
            cols = 2 + cols % 2
        }
        FCV => {
            cols = 1;
            rows = 2 + rows % 2
        }
        _ => {}
    }
    if kind == UT {
        rows = rows.min(300);
        cols = rows;
    }
    let dense: (usize, usize) = match kind {
        RM | FR => (cols, 1),
        CM | FC => (1, rows),
        _ => (1, 1),
    };
    let st: BoxedStrategy<(usize, usize)> = match kind {
        SRM | SCM => strides(rows, cols, o.overlap),
        SRV => (if o.overlap { 0usize } else { 1 }..=5).prop_map(|s| (1, s)).boxed(),
        SCV => (if o.overlap { 0usize } else { 1 }..=5).prop_map(|s| (s, 1)).boxed(),
        _ => Just(dense).boxed(),
    };
    let stores: Vec<Store> = match kind {
        FR | FC | FRV | FCV => vec![Store::Own],
        RM | CM => vec![Store::Own, Store::Own, Store::Vec, Store::Slice, Store::Arr, Store::Ptr],
        SRM | SCM => vec![Store::Vec, Store::Slice, Store::Arr, Store::Ptr, Store::Block, Store::Block],
        SRV | SCV => vec![Store::Vec, Store::Slice, Store::Arr],
        _ => vec![Store::Own, Store::Own, Store::Vec, Store::Slice, Store::Arr],
    };
    (st, prop::sample::select(stores), 0usize..=3, 0usize..=3, 0usize..=3, 0usize..=3, 0usize..=5, 0usize..=5)
        .prop_map(move |((sr, sc), store, top, left, padr, padc, extra, pre)| {
            let mut s = MSpec { kind, store, rows, cols, sr, sc, off: 0, clen: 0, total: 0, top: 0, left: 0, pdim: (0, 0) };
            if s.store == Store::Ptr && (rows == 0 || cols == 0) {
                s.store = Store::Slice;
            }
            if s.store == Store::Ptr && (s.extent() < s.n()) {
                // an unsafe constructor: only its documented non-overlapping use
                s.store = Store::Vec;
            }
            match s.store {
                Store::Block => {
                    let (pr, pc) = (rows + top + padr, cols + left + padc);
                    s.top = top;
                    s.left = left;
                    s.pdim = (pr, pc);
                    if kind == SRM {
                        s.sr = pc;
                        s.sc = 1;
                        s.off = top * pc + left;
                    } else {
                        s.sr = 1;
                        s.sc = pr;
                        s.off = left * pr + top;
                    }
                    s.clen = s.extent();
                    s.total = pr * pc;
                    s.off = s.off.min(s.total);
                    return s;
                }
                Store::Arr => {
                    if s.extent().max(s.n()) > ARR {
                        s.store = Store::Vec;
                    }
                }
                _ => {}
            }
            let need = s.extent().max(s.n());
            s.clen = match s.store {
                Store::Own => s.n(),
                Store::Arr => ARR,
                Store::Ptr => s.extent(),
                _ => need + extra,
            };
            s.off = pre;
            s.total = pre + s.clen + extra.max(1);
            s
        })
        .boxed()
}

pub fn spec_kinds(kinds: &'static [Kind], d: BoxedStrategy<(usize, usize)>, o: GenOpts) -> BoxedStrategy<MSpec> {
    (prop::sample::select(kinds.to_vec()), d).prop_flat_map(move |(k, d)| spec_for(k, d, o)).boxed()
}

pub const INJ: GenOpts = GenOpts { overlap: false, empty: true };
pub const NONEMPTY: GenOpts = GenOpts { overlap: false, empty: false };
pub const ANY: GenOpts = GenOpts { overlap: true, empty: true };

/// Evidence labels of a matrix specification.
pub fn label_spec(s: &MSpec, o: &mut crate::engine::Obs) {
    o.label(match s.kind {
        Kind::RM => "row-major",
        Kind::CM => "column-major",
        Kind::SRM => "strided-row",
        Kind::SCM => "strided-col",
        Kind::UT => "upper-triangular",
        Kind::RVD | Kind::CVD => "dynamic-matrix-with-vector-layout",
        Kind::RV | Kind::CV => "vector",
        Kind::SRV | Kind::SCV => "strided-vector",
        _ => "fixed-size",
    });
    o.label(match s.store {
        Store::Own => "store-own",
        Store::Vec => "store-vec",
        Store::Slice => "store-slice",
        Store::Arr => "store-array",
        Store::Ptr => "store-pointer",
        Store::Block => "store-block",
    });
    o.label_if(s.n() == 0, "empty");
    o.label_if(s.n() > 1000, "more-than-1000-elements");
}
