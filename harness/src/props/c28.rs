//! C28: layouts and containers defined by a user.
use householder::data_container::{DataContainer, DataContainerMut};
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::marker::PhantomData;
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::{shapes, with_shape, with_ty};

type P = (usize, usize);

// --- enumerations of elements that are neither by rows nor by columns ---------------------------------------------

/// An order in which the elements of a matrix of a given dimension are numbered. Elements may be left out.
pub trait Numbering: 'static {
    fn list(d: P) -> Vec<P>;
}
macro_rules! numbering {
    ($($N:ident, $d:ident => $e:expr;)*) => { $(pub struct $N; impl Numbering for $N { fn list($d: P) -> Vec<P> { $e } })* };
}
fn all(d: P) -> impl Iterator<Item = P> {
    (0..d.0).flat_map(move |r| (0..d.1).map(move |c| (r, c)))
}
numbering! {
    // to and fro
    Snake, d => all(d).map(|(r, c)| (r, if r % 2 == 0 { c } else { d.1 - 1 - c })).collect();
    // lower triangle with the diagonal
    Lower, d => all(d).filter(|(r, c)| c <= r).collect();
    // the diagonal only
    Diag, d => (0..d.0.min(d.1)).map(|i| (i, i)).collect();
    // along the antidiagonals
    Anti, d => { let mut v: Vec<P> = all(d).collect(); v.sort_by_key(|(r, c)| (r + c, *r)); v };
    // upper left triangle: the last element of the last row is not stored
    UpLeft, d => all(d).filter(|(r, c)| r + c < d.0.max(d.1)).filter(|(r, c)| d.0 * d.1 == 1 || (*r, *c) != (d.0 - 1, d.1 - 1)).collect();
    // everything backwards
    Back, d => { let mut v: Vec<P> = all(d).collect(); v.reverse(); v };
    // three diagonals
    Band, d => all(d).filter(|(r, c)| r.abs_diff(*c) <= 1).collect();
    // every second one, columns first
    Chess, d => { let mut v: Vec<P> = all(d).filter(|(r, c)| (r + c) % 2 == 0).collect(); v.sort_by_key(|(r, c)| (*c, *r)); v };
}

/// A dense user layout that depends on the dimension only.
pub struct Num<N> {
    d: P,
    at: Vec<P>,
    idx: Vec<usize>,
    p: PhantomData<N>,
}
impl<N: Numbering> Num<N> {
    fn new(d: P) -> Self {
        let at = N::list(d);
        let mut idx = vec![usize::MAX; d.0 * d.1];
        for (i, (r, c)) in at.iter().enumerate() {
            idx[r * d.1 + c] = i
        }
        Num { d, at, idx, p: PhantomData }
    }
}
impl<N: Numbering> LayoutType for Num<N> {
    type IndexLayout = Self;
    fn stride(&self) -> P {
        panic!("asked for the stride of a layout that is not strided")
    }
    fn dim(&self) -> P {
        self.d
    }
    fn number_of_elements(&self) -> usize {
        self.at.len()
    }
    fn convert_1d_2d(&self, i: usize) -> P {
        self.at[i]
    }
    fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
        let i = self.idx[r * self.d.1 + c];
        assert!(i != usize::MAX, "element ({r},{c}) is not stored");
        i
    }
    fn convert_1d_raw(&self, i: usize) -> usize {
        assert!(i < self.at.len(), "asked for the position of element number {i} of {}", self.at.len());
        i
    }
    fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
        self.convert_2d_1d(r, c)
    }
    fn index_layout(&self) -> Self {
        Self::new(self.d)
    }
}
impl<N: Numbering> BaseLayoutType for Num<N> {
    fn from_dimension(d: P) -> Self {
        Self::new(d)
    }
}

/// A user layout over any index layout: positions from a table.
pub struct Tab<B> {
    base: B,
    raw: Vec<usize>,
}
impl<B: BaseLayoutType> LayoutType for Tab<B> {
    type IndexLayout = B;
    fn stride(&self) -> P {
        panic!("asked for the stride of a layout that is not strided")
    }
    fn dim(&self) -> P {
        self.base.dim()
    }
    fn number_of_elements(&self) -> usize {
        self.raw.len()
    }
    fn convert_1d_2d(&self, i: usize) -> P {
        self.base.convert_1d_2d(i)
    }
    fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
        self.base.convert_2d_1d(r, c)
    }
    fn convert_1d_raw(&self, i: usize) -> usize {
        self.raw[i]
    }
    fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
        self.raw[self.base.convert_2d_1d(r, c)]
    }
    fn index_layout(&self) -> B {
        B::from_dimension(self.dim())
    }
}

/// A strided user layout, numbered by any index layout that stores every element.
pub struct Str<B> {
    base: B,
    rs: usize,
    cs: usize,
}
impl<B: BaseLayoutType> LayoutType for Str<B> {
    type IndexLayout = B;
    fn stride(&self) -> P {
        (self.rs, self.cs)
    }
    fn dim(&self) -> P {
        self.base.dim()
    }
    fn number_of_elements(&self) -> usize {
        self.base.number_of_elements()
    }
    fn convert_1d_2d(&self, i: usize) -> P {
        self.base.convert_1d_2d(i)
    }
    fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
        self.base.convert_2d_1d(r, c)
    }
    fn convert_1d_raw(&self, i: usize) -> usize {
        let (r, c) = self.base.convert_1d_2d(i);
        self.convert_2d_raw(r, c)
    }
    fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
        r * self.rs + c * self.cs
    }
    fn index_layout(&self) -> B {
        B::from_dimension(self.dim())
    }
}
impl<B: BaseLayoutType> StridedLayoutType for Str<B> {}

// --- a user container -----------------------------------------------------------------------------------------------

/// Checks every position it is asked for, and remembers it.
pub struct Chest<T> {
    data: Vec<T>,
    /// what it says it holds
    says: usize,
    seen: RefCell<Vec<u8>>,
}
impl<T> Chest<T> {
    fn new(data: Vec<T>) -> Self {
        Chest { says: data.len(), seen: RefCell::new(vec![0; data.len()]), data }
    }
    fn note(&self, i: usize) {
        let n = self.data.len();
        match self.seen.borrow_mut().get_mut(i) {
            Some(x) => *x = 1,
            None => panic!("container of {n} items asked for item {i}"),
        }
    }
    /// The first position that was asked for although it belongs to no element
    fn stray(&self, named: &[usize]) -> Option<usize> {
        let mut s = self.seen.borrow().clone();
        for i in named {
            s[*i] = 0
        }
        s.iter().position(|x| *x != 0)
    }
}
impl<T: Sc> DataContainer for Chest<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, i: usize) -> T {
        self.note(i);
        self.data[i]
    }
    fn get_pointer(&self) -> *const T {
        self.data.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.says
    }
}
impl<T: Sc> DataContainerMut for Chest<T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.note(i);
        &mut self.data[i]
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.data.as_mut_ptr()
    }
}
/// A container that is lent, so that it can be inspected while the matrix lives
struct Lent<'a, T>(&'a RefCell<Chest<T>>, *mut T);
impl<'a, T: Sc> Lent<'a, T> {
    fn new(c: &'a RefCell<Chest<T>>) -> Self {
        let p = c.borrow_mut().data.as_mut_ptr();
        Lent(c, p)
    }
}
impl<'a, T: Sc> DataContainer for Lent<'a, T> {
    type Item = T;
    unsafe fn get_unchecked(&self, i: usize) -> T {
        self.0.borrow().get_unchecked(i)
    }
    fn get_pointer(&self) -> *const T {
        self.1
    }
    fn number_of_elements(&self) -> usize {
        self.0.borrow().says
    }
}
impl<'a, T: Sc> DataContainerMut for Lent<'a, T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.0.borrow().note(i);
        &mut *self.1.add(i)
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.1
    }
}

// --- cases ------------------------------------------------------------------------------------------------------------

/// Which index layout
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ix {
    Snake,
    Lower,
    Diag,
    Anti,
    UpLeft,
    Back,
    Band,
    Chess,
    Rows,
    Cols,
    Upper,
}
macro_rules! with_ix {
    ($ix:expr, $B:ident => $e:expr) => {
        match $ix {
            Ix::Snake => { type $B = Num<Snake>; $e }
            Ix::Lower => { type $B = Num<Lower>; $e }
            Ix::Diag => { type $B = Num<Diag>; $e }
            Ix::Anti => { type $B = Num<Anti>; $e }
            Ix::UpLeft => { type $B = Num<UpLeft>; $e }
            Ix::Back => { type $B = Num<Back>; $e }
            Ix::Band => { type $B = Num<Band>; $e }
            Ix::Chess => { type $B = Num<Chess>; $e }
            Ix::Rows => { type $B = RowMajor; $e }
            Ix::Cols => { type $B = ColumnMajor; $e }
            Ix::Upper => { type $B = UpperTriangular; $e }
        }
    };
}
/// Where the elements lie
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Place {
    /// as they are numbered
    Dense,
    /// numbered, every `gap + 1`-th item
    Gapped(u8),
    /// in an arbitrary order, from position 0
    Shuffled(u64),
    /// in an arbitrary order with unused items between them
    Scattered(u64, u8),
}
impl Place {
    fn raw(self, n: usize) -> Vec<usize> {
        let shuffle = |s: u64, v: &mut Vec<usize>| {
            for i in (1..v.len()).rev() {
                v.swap(i, (mix(s, i as u64) % (i as u64 + 1)) as usize)
            }
            // the first element is the first item
            if let Some(i) = v.iter().position(|x| *x == 0) {
                v.swap(0, i)
            }
        };
        let mut v: Vec<usize> = (0..n).collect();
        match self {
            Place::Dense => {}
            Place::Gapped(g) => v.iter_mut().for_each(|x| *x *= g as usize + 1),
            Place::Shuffled(s) => shuffle(s, &mut v),
            Place::Scattered(s, g) => {
                let mut at = 0;
                for (i, x) in v.iter_mut().enumerate() {
                    *x = at;
                    at += 1 + (mix(s ^ 77, i as u64) % (g as u64 + 1)) as usize
                }
                shuffle(s, &mut v)
            }
        }
        v
    }
}
fn ixs() -> BoxedStrategy<Ix> {
    use Ix::*;
    prop::sample::select(vec![Snake, Lower, Diag, Anti, UpLeft, Back, Band, Chess, Rows, Cols, Upper]).boxed()
}
fn places() -> BoxedStrategy<Place> {
    prop_oneof![
        1 => Just(Place::Dense),
        1 => (1u8..4).prop_map(Place::Gapped),
        3 => any::<u64>().prop_map(Place::Shuffled),
        3 => (any::<u64>(), 1u8..4).prop_map(|(s, g)| Place::Scattered(s, g)),
    ]
    .boxed()
}
fn square(ix: Ix, d: P) -> P {
    if ix == Ix::Upper {
        (d.0, d.0)
    } else {
        d
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Pair(u32, u32),
    Index(u32, u32),
    Each(u8),
    Random(u64),
    Slice(u32, u32),
    Pointer(u32, u32),
    Beyond(u8, u32),
    Eval,
    Refs(u32, u32),
    Twice(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    ty: Ty,
    ix: Ix,
    dim: P,
    place: Place,
    /// unused items at the end
    more: u8,
    /// 0 the user's container, 1 vector, 2 slice
    store: u8,
    fill: Fill,
    ops: Vec<Op>,
}
fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    let a = any::<u32>;
    let op = prop_oneof![
        3 => (a(), a()).prop_map(|(i, v)| Op::Pair(i, v)),
        3 => (a(), a()).prop_map(|(i, v)| Op::Index(i, v)),
        3 => (0u8..4).prop_map(Op::Each),
        2 => any::<u64>().prop_map(Op::Random),
        2 => (a(), a()).prop_map(|(i, v)| Op::Slice(i, v)),
        1 => (a(), a()).prop_map(|(i, v)| Op::Pointer(i, v)),
        2 => (0u8..6, a()).prop_map(|(k, v)| Op::Beyond(k, v)),
        3 => Just(Op::Eval),
        2 => (a(), a()).prop_map(|(i, v)| Op::Refs(i, v)),
        1 => a().prop_map(Op::Twice),
    ];
    prop::collection::vec(op, 1..n).boxed()
}
fn hists_of(d: BoxedStrategy<P>, n: usize) -> BoxedStrategy<Hist> {
    (ty(), ixs(), d, places(), 0u8..4, 0u8..3, fill(), ops(n))
        .prop_map(|(ty, ix, dim, place, more, store, fill, ops)| Hist { ty, ix, dim: square(ix, dim), place, more, store, fill, ops })
        .boxed()
}
fn hists() -> BoxedStrategy<Hist> {
    hists_of(prop_oneof![6 => small_dims(), 1 => (1usize..=24, 1usize..=24)].boxed(), 12)
}
fn hists_big() -> BoxedStrategy<Hist> {
    hists_of(prop_oneof![(1usize..=150, 1usize..=150), (1usize..=4, 200usize..3000), (200usize..3000, 1usize..=4)].boxed(), 5)
        .prop_map(|mut h| {
            // full tables of long triangles are not affordable
            if h.ix == Ix::Upper || h.ix == Ix::Lower {
                h.dim = (h.dim.0.min(150), h.dim.0.min(150))
            }
            h
        })
        .boxed()
}

/// The elements by number, and everything the container holds
struct Mirror<T> {
    d: P,
    at: Vec<P>,
    raw: Vec<usize>,
    buf: Vec<T>,
}
impl<T: Sc> Mirror<T> {
    fn new<B: BaseLayoutType>(b: &B, place: Place, more: usize, fill: Fill, salt: u64) -> Self {
        let n = b.number_of_elements();
        let raw = place.raw(n);
        let len = raw.iter().max().map_or(0, |m| m + 1) + more;
        Mirror { d: b.dim(), at: (0..n).map(|i| b.convert_1d_2d(i)).collect(), raw, buf: fill_vec(fill, salt, len) }
    }
    fn n(&self) -> usize {
        self.at.len()
    }
    fn v(&self, i: usize) -> T {
        self.buf[self.raw[i]]
    }
    fn set(&mut self, i: usize, v: T) {
        let p = self.raw[i];
        self.buf[p] = v
    }
    /// A pair that is not stored
    fn hole(&self, k: u32) -> Option<P> {
        let mut s = vec![true; self.d.0 * self.d.1];
        for (r, c) in &self.at {
            s[r * self.d.1 + c] = false
        }
        let h: Vec<usize> = (0..s.len()).filter(|i| s[*i]).collect();
        (!h.is_empty()).then(|| h[k as usize % h.len()]).map(|i| (i / self.d.1, i % self.d.1))
    }
}

/// Compares all elements of an object with `want(number)`.
fn see<T: Sc, M: RandomAccess<Item = T> + Layout>(m: &M, d: P, at: &[P], what: &str, want: &dyn Fn(usize) -> T) -> Res {
    ensure!(m.layout().dim() == d, "{what}: dimension {:?} instead of {d:?}", m.layout().dim());
    ensure!(m.layout().number_of_elements() == at.len(), "{what}: {} elements instead of {}", m.layout().number_of_elements(), at.len());
    for (i, (r, c)) in at.iter().enumerate() {
        let w = want(i);
        ensure!(m.get1d(i).same(w), "{what}: element number {i} reads {}, should be {}", show(m.get1d(i)), show(w));
        ensure!(m.get(*r, *c).same(w), "{what}: element ({r},{c}) reads {}, should be {}", show(m.get(*r, *c)), show(w));
        unsafe {
            ensure!(m.get1d_unchecked(i).same(w) && m.get_unchecked(*r, *c).same(w), "{what}: element number {i} ({r},{c}) differs when read unchecked");
        }
    }
    Ok(())
}

fn check_hist(c: &Hist, o: &mut Obs) -> Res {
    o.label_if(c.store == 0, "own-container");
    o.label_if(!matches!(c.place, Place::Dense), "own-positions");
    o.label_if(!matches!(c.ix, Ix::Rows | Ix::Cols | Ix::Upper), "own-numbering");
    o.label_if(matches!(c.place, Place::Gapped(_) | Place::Scattered(..)) || c.more > 0, "unused-items");
    if c.dim.0 * c.dim.1 > 1 && (c.store == 0 || !matches!(c.place, Place::Dense) || !matches!(c.ix, Ix::Rows | Ix::Cols | Ix::Upper)) {
        o.hit()
    }
    with_ty!(c.ty, T => with_ix!(c.ix, B => hist::<T, B>(c)))
}

fn hist<T: Sc, B: BaseLayoutType<IndexLayout = B>>(c: &Hist) -> Res {
    let base = B::from_dimension(c.dim);
    let mut mi = Mirror::<T>::new(&base, c.place, c.more as usize, c.fill, 1);
    let what = format!("{:?} {:?} {:?} in container {}", c.ix, c.dim, c.place, c.store);
    // the index layout itself can be the layout where it stores densely
    let tab = Tab { base, raw: mi.raw.clone() };
    let direct = c.place == Place::Dense && c.more % 2 == 1;
    let mut data = mi.buf.clone();
    match c.store {
        0 => {
            let chest = RefCell::new(Chest::new(data));
            if direct {
                run_ops(&mut GenericBaseMatrixMut::<T, B, Lent<T>, Dynamic, Dynamic>::from_data(Lent::new(&chest), tab.base), &mut mi, c, &what, Some(&chest))?
            } else {
                run_ops(&mut GenericBaseMatrixMut::<T, Tab<B>, Lent<T>, Dynamic, Dynamic>::from_data(Lent::new(&chest), tab), &mut mi, c, &what, Some(&chest))?
            }
            let chest = chest.into_inner();
            same_buf(&chest.data, &mi, &what)
        }
        1 => {
            let mut v = VectorContainer::<T>::new(data.len());
            if !data.is_empty() {
                v.get_slice_mut(0, data.len()).copy_from_slice(&data);
            }
            let mut m = GenericBaseMatrixMut::<T, Tab<B>, _, Dynamic, Dynamic>::from_data(v, tab);
            run_ops(&mut m, &mut mi, c, &what, None)?;
            if mi.buf.is_empty() {
                return Ok(());
            }
            let now = m.get_slice(0, mi.buf.len()).to_vec();
            same_buf(&now, &mi, &what)
        }
        _ => {
            run_ops(&mut SliceMatrixMut::<T, Tab<B>, Dynamic, Dynamic>::from_data(SliceContainerMut::new(&mut data), tab), &mut mi, c, &what, None)?;
            same_buf(&data, &mi, &what)
        }
    }
}
fn same_buf<T: Sc>(now: &[T], mi: &Mirror<T>, what: &str) -> Res {
    for i in 0..mi.buf.len() {
        ensure!(now[i].same(mi.buf[i]), "{what}: item {i} of the storage is {}, should be {}", show(now[i]), show(mi.buf[i]));
    }
    Ok(())
}

type M<T, L, D> = GenericBaseMatrixMut<T, L, D, Dynamic, Dynamic>;

fn run_ops<T: Sc, B: BaseLayoutType<IndexLayout = B>, L: LayoutType<IndexLayout = B>, D: DataContainerMut<Item = T>>(
    m: &mut M<T, L, D>,
    mi: &mut Mirror<T>,
    c: &Hist,
    what: &str,
    chest: Option<&RefCell<Chest<T>>>,
) -> Res {
    let n = mi.n();
    let val = |v: u32| elem::<T>(c.fill, 5, v as usize);
    for (k, op) in c.ops.iter().enumerate() {
        let what = &format!("{what}, operation {k} {op:?}");
        match op {
            Op::Pair(i, v) if n > 0 => {
                let i = *i as usize % n;
                let (r, q) = mi.at[i];
                *m.get_mut(r, q) = val(*v);
                mi.set(i, val(*v));
            }
            Op::Index(i, v) if n > 0 => {
                let i = *i as usize % n;
                *m.get1d_mut(i) = val(*v);
                mi.set(i, val(*v));
            }
            Op::Each(a) => {
                let mut calls = 0usize;
                let mut bad = None;
                m.for_each(|x| {
                    let i = calls;
                    calls += 1;
                    if i >= n {
                        panic!("more calls than elements")
                    }
                    if !x.same(mi.v(i)) && bad.is_none() {
                        bad = Some((i, *x))
                    }
                    match a {
                        0 => {}
                        1 => *x = T::mk(i as f64 + 1.0, -(i as f64)),
                        2 => *x = x.rmul(T::mk(2.0, 0.0)),
                        _ if i % 3 == 1 => *x = T::mk(-7.0, i as f64),
                        _ => {}
                    }
                });
                if let Some((i, x)) = bad {
                    return fail(format!("{what}: visit {i} saw {}, element number {i} is {}", show(x), show(mi.v(i))));
                }
                ensure!(calls == n, "{what}: {calls} visits for {n} elements");
                for i in 0..n {
                    match a {
                        0 => {}
                        1 => mi.set(i, T::mk(i as f64 + 1.0, -(i as f64))),
                        2 => mi.set(i, mi.v(i).rmul(T::mk(2.0, 0.0))),
                        _ if i % 3 == 1 => mi.set(i, T::mk(-7.0, i as f64)),
                        _ => {}
                    }
                }
            }
            Op::Random(seed) => {
                use rand::SeedableRng;
                let mut g = rand::rngs::StdRng::seed_from_u64(*seed);
                let mut h = g.clone();
                T::fill_rng(m, &mut g);
                for i in 0..n {
                    mi.set(i, T::draw(&mut h))
                }
            }
            Op::Slice(a, v) if !mi.buf.is_empty() => {
                let len = mi.buf.len();
                let first = *a as usize % len;
                let last = first + 1 + *v as usize % (len - first);
                let s = m.get_slice(first, last);
                ensure!(s.len() == last - first, "{what}: raw slice of {} items", s.len());
                ensure!(s.iter().zip(&mi.buf[first..last]).all(|(x, y)| x.same(*y)), "{what}: raw slice ({first}, {last}) has other contents than the storage");
                let s = m.get_slice_mut(first, last);
                ensure!(s.len() == last - first, "{what}: raw slice of {} items", s.len());
                let at = *v as usize % s.len();
                s[at] = val(*v);
                mi.buf[first + at] = val(*v);
            }
            Op::Pointer(i, v) if n > 0 => unsafe {
                let i = mi.raw[*i as usize % n];
                ensure!((*m.get_pointer().add(i)).same(mi.buf[i]), "{what}: item {i} from the pointer differs");
                *m.get_pointer_mut().add(i) = val(*v);
                mi.buf[i] = val(*v);
            },
            Op::Beyond(kind, v) => {
                let v = *v as usize;
                let (r, q) = mi.d;
                let (refused, how) = match kind {
                    0 => (refuses(|| m.get1d(n + v % 5)), format!("reading number {}", n + v % 5)),
                    1 => (refuses(|| *m.get1d_mut(n + v % 5)), format!("writing number {}", n + v % 5)),
                    2 => (refuses(|| m.get(r + v % 3, v % q.max(1))), "reading below".to_string()),
                    3 => (refuses(|| *m.get_mut(v % r.max(1), q + v % 3)), "writing to the right".to_string()),
                    _ => match mi.hole(v as u32) {
                        Some((a, b)) if *kind == 4 => (refuses(|| m.get(a, b)), format!("reading ({a},{b}), which is not stored")),
                        Some((a, b)) => (refuses(|| *m.get_mut(a, b)), format!("writing ({a},{b}), which is not stored")),
                        None => (true, String::new()),
                    },
                };
                ensure!(refused, "{what}: {how} was not refused");
                let l = mi.buf.len();
                ensure!(refuses(|| m.get_slice(v % (l + 1), l + 1).len()), "{what}: raw slice past the end was not refused");
                ensure!(refuses(|| m.get_slice_mut(v % (l + 1), l + 1).len()), "{what}: raw slice past the end was not refused");
            }
            Op::Eval => {
                let e = m.eval();
                see(&e, mi.d, &mi.at, &format!("{what}: result"), &|i| mi.v(i))?;
            }
            Op::Refs(i, v) => {
                {
                    let mut w = Matrix::<T, MatrixRefMut<T, _, L, Dynamic, Dynamic>, L, Dynamic, Dynamic>::new(MatrixRefMut::new(m));
                    if n > 0 {
                        let (a, b) = (*i as usize % n, *v as usize % n);
                        *w.get1d_mut(a) = val(*v);
                        mi.set(a, val(*v));
                        let (r, q) = mi.at[b];
                        *w.get_mut(r, q) = val(*i);
                        mi.set(b, val(*i));
                    }
                    see(&w, mi.d, &mi.at, &format!("{what}: mutable reference"), &|i| mi.v(i))?;
                }
                let w = Matrix::<T, MatrixRef<T, _, L, Dynamic, Dynamic>, L, Dynamic, Dynamic>::new(MatrixRef::new(m));
                see(&w, mi.d, &mi.at, &format!("{what}: reference"), &|i| mi.v(i))?;
                see(&w.eval(), mi.d, &mi.at, &format!("{what}: evaluated reference"), &|i| mi.v(i))?;
            }
            Op::Twice(s) => {
                let s = val(*s);
                let x = T::s_rm(s, m) + &*m;
                see(&x, mi.d, &mi.at, &format!("{what}: expression"), &|i| s.rmul(mi.v(i)).radd(mi.v(i)))?;
                see(&x.eval(), mi.d, &mi.at, &format!("{what}: result"), &|i| s.rmul(mi.v(i)).radd(mi.v(i)))?;
            }
            _ => {}
        }
        if n <= 100 || k + 1 == c.ops.len() {
            see(m, mi.d, &mi.at, what, &|i| mi.v(i))?;
        }
        if let Some(ch) = chest {
            if let Some(p) = ch.borrow().stray(&mi.raw) {
                return fail(format!("{what}: the container was asked for item {p}, which belongs to no element"));
            }
        }
    }
    Ok(())
}

// --- expressions over three different implementations of one index layout -----------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Expr {
    ty: Ty,
    ix: Ix,
    dim: P,
    place: [Place; 2],
    /// the operands of the third kind have this dimension (refused when it differs)
    other: P,
    shape: u8,
    fill: Fill,
    sf: Fill,
    rot: u8,
}
fn exprs_of(d: BoxedStrategy<P>) -> BoxedStrategy<Expr> {
    (ty(), ixs(), d, [places(), places()], small_dims(), 0u8..7, 0..shapes::SHAPES, fill(), (fill(), 0u8..6))
        .prop_map(|(ty, ix, dim, place, other, differ, shape, fill, (sf, rot))| {
            let dim = square(ix, dim);
            let other = if differ == 0 { square(ix, other) } else { dim };
            Expr { ty, ix, dim, place, other, shape, fill, sf, rot }
        })
        .boxed()
}
fn exprs() -> BoxedStrategy<Expr> {
    exprs_of(prop_oneof![6 => small_dims(), 1 => (1usize..=20, 1usize..=20)].boxed())
}
fn check_expr(c: &Expr, o: &mut Obs) -> Res {
    o.label_if(c.other != c.dim, "unequal");
    o.label_if(!matches!(c.ix, Ix::Rows | Ix::Cols | Ix::Upper), "own-numbering");
    if c.dim.0 * c.dim.1 > 1 {
        o.hit()
    }
    match c.ty {
        Ty::F64 | Ty::C64 => with_ix!(c.ix, B => expr::<f64, B>(c)),
        Ty::F32 | Ty::C32 => with_ix!(c.ix, B => expr::<householder::types::c32, B>(c)),
    }
}
fn expr<T: Sc, B: BaseLayoutType<IndexLayout = B>>(c: &Expr) -> Res {
    let m1 = Mirror::<T>::new(&B::from_dimension(c.dim), c.place[0], 2, c.fill, 1);
    let m2 = Mirror::<T>::new(&B::from_dimension(c.dim), c.place[1], 0, c.fill, 2);
    let m3 = Mirror::<T>::new(&B::from_dimension(c.other), Place::Dense, 0, c.fill, 3);
    let chest = RefCell::new(Chest::new(m1.buf.clone()));
    let named = m1.raw.clone();
    let own = GenericBaseMatrix::<T, Tab<B>, Lent<T>, Dynamic, Dynamic>::from_data(Lent::new(&chest), Tab { base: B::from_dimension(c.dim), raw: m1.raw.clone() });
    let sliced = SliceMatrix::<T, Tab<B>, Dynamic, Dynamic>::from_data(SliceContainer::new(&m2.buf), Tab { base: B::from_dimension(c.dim), raw: m2.raw.clone() });
    let mut plain = MatrixD::<T, B>::zeros_from_dim(c.other.0, c.other.1);
    see(&plain, m3.d, &m3.at, "zeros", &|_| T::mk(0.0, 0.0))?;
    let mut i = 0;
    plain.for_each(|x| {
        *x = m3.v(i);
        i += 1
    });
    see(&plain, m3.d, &m3.at, "library matrix of the user's layout", &|i| m3.v(i))?;
    let (s, t) = (elem::<T>(c.sf, 7, 0), elem::<T>(c.sf, 7, 1));
    if c.other != c.dim {
        ensure!(refuses(|| (&own + &plain).dim()), "{c:?}: a sum of unequal dimensions was not refused");
        ensure!(refuses(|| (T::s_rm(s, &plain) + &sliced).dim()), "{c:?}: a sum of unequal dimensions was not refused");
        ensure!(refuses(|| ((&own + &sliced) + &plain).dim()), "{c:?}: a sum of unequal dimensions was not refused");
        return Ok(());
    }
    let at = m1.at.clone();
    let what = format!("{:?} {:?} expression {} rot {}", c.ix, c.dim, c.shape, c.rot);
    macro_rules! go {
        ($a:ident, $b:ident, $c:ident, $ma:ident, $mb:ident, $mc:ident) => {{
            let want = |i: usize| shapes::want(c.shape, $ma.v(i), $mb.v(i), $mc.v(i), s, t);
            with_shape!(c.shape, T, $a, $b, $c, s, t, shapes::run, x => {
                see(&x, c.dim, &at, &what, &want)?;
                let e = x.eval();
                see(&e, c.dim, &at, &format!("evaluated {what}"), &want)?;
                // the result is a matrix of the index layout: it adds up with the operands
                let y = &e + &own;
                see(&y, c.dim, &at, &format!("result of {what} as an operand"), &|i| want(i).radd(m1.v(i)))?;
            })
        }};
    }
    match c.rot {
        0 => go!(own, sliced, plain, m1, m2, m3),
        1 => go!(own, plain, sliced, m1, m3, m2),
        2 => go!(sliced, own, plain, m2, m1, m3),
        3 => go!(sliced, plain, own, m2, m3, m1),
        4 => go!(plain, own, sliced, m3, m1, m2),
        _ => go!(plain, sliced, own, m3, m2, m1),
    }
    if let Some(p) = chest.borrow().stray(&named) {
        return fail(format!("{what}: the container was asked for item {p}, which belongs to no element"));
    }
    let now = chest.borrow().data.clone();
    same_buf(&now, &m1, &what)
}

// --- vectors ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vecs {
    ty: Ty,
    row: bool,
    n: usize,
    place: [Place; 2],
    fill: Fill,
}
fn vecs() -> BoxedStrategy<Vecs> {
    (ty(), any::<bool>(), prop_oneof![4 => 0usize..9, 1 => 9usize..200], [places(), places()], fill()).prop_map(|(ty, row, n, place, fill)| Vecs { ty, row, n, place, fill }).boxed()
}
fn check_vecs(c: &Vecs, o: &mut Obs) -> Res {
    o.label(if c.row { "row" } else { "column" });
    if c.n > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => vecs_of::<T>(c))
}
fn vecs_of<T: Sc>(c: &Vecs) -> Res {
    macro_rules! go {
        ($V:ident, $RS:ident, $CS:ident, $Lib:ident, $d:expr) => {{
            let d: P = $d;
            let mut m1 = Mirror::<T>::new(&$V::from_dimension(d), c.place[0], 1, c.fill, 1);
            let m2 = Mirror::<T>::new(&$V::from_dimension(d), c.place[1], 0, c.fill, 2);
            let chest = RefCell::new(Chest::new(m1.buf.clone()));
            let mut own = GenericBaseMatrixMut::<T, Tab<$V>, Lent<T>, $RS, $CS>::from_data(Lent::new(&chest), Tab { base: $V::from_dimension(d), raw: m1.raw.clone() });
            let other = SliceMatrix::<T, Tab<$V>, $RS, $CS>::from_data(SliceContainer::new(&m2.buf), Tab { base: $V::from_dimension(d), raw: m2.raw.clone() });
            let mut lib = $Lib::<T>::zeros_from_length(c.n);
            for i in 0..c.n {
                *lib.get1d_mut(i) = elem(c.fill, 3, i);
            }
            let at = m1.at.clone();
            ensure!(own.length() == c.n && other.length() == c.n, "{c:?}: length {} and {}", own.length(), other.length());
            let s = elem::<T>(c.fill, 6, 0);
            see(&(&own + &lib), d, &at, "own + library", &|i| m1.v(i).radd(elem(c.fill, 3, i)))?;
            see(&(&lib + &own), d, &at, "library + own", &|i| elem::<T>(c.fill, 3, i).radd(m1.v(i)))?;
            see(&(T::s_rm(s, &own) + &other), d, &at, "s * own + other", &|i| s.rmul(m1.v(i)).radd(m2.v(i)))?;
            see(&(T::rm_s(&(&other + &own), s)), d, &at, "(other + own) * s", &|i| s.rmul(m2.v(i).radd(m1.v(i))))?;
            ensure!((&own + &lib).length() == c.n, "{c:?}: length of the sum {}", (&own + &lib).length());
            let longer = $Lib::<T>::zeros_from_length(c.n + 1);
            ensure!(refuses(|| (&own + &longer).dim()), "{c:?}: vectors of unequal length were added");
            let mut k = 0;
            own.for_each(|x| {
                k += 1;
                *x = T::mk(k as f64, 0.5);
            });
            ensure!(k == c.n, "{c:?}: {k} visits");
            for i in 0..c.n {
                m1.set(i, T::mk(i as f64 + 1.0, 0.5));
            }
            see(&own, d, &at, "own", &|i| m1.v(i))?;
            drop(own);
            let chest = chest.into_inner();
            if let Some(p) = chest.stray(&m1.raw) {
                return fail(format!("{c:?}: the container was asked for item {p}, which belongs to no element"));
            }
            same_buf(&chest.data, &m1, "vector")
        }};
    }
    if c.row {
        go!(RowVector, Fixed1, Dynamic, RowVectorD, (1, c.n))
    } else {
        go!(ColumnVector, Dynamic, Fixed1, ColumnVectorD, (c.n, 1))
    }
}

// --- construction -------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Make {
    ix: Ix,
    dim: P,
    place: Place,
    /// what the container says it holds, relative to what is needed
    says: i8,
}
fn makes() -> BoxedStrategy<Make> {
    (ixs(), prop_oneof![6 => small_dims(), 1 => (1usize..=30, 1usize..=30)], places(), -4i8..6).prop_map(|(ix, dim, place, says)| Make { ix, dim: square(ix, dim), place, says }).boxed()
}
fn check_make(c: &Make, o: &mut Obs) -> Res {
    if c.dim.0 * c.dim.1 > 1 {
        o.hit()
    }
    with_ix!(c.ix, B => make::<B>(c, o))
}
fn make<B: BaseLayoutType<IndexLayout = B>>(c: &Make, o: &mut Obs) -> Res {
    let mi = Mirror::<f64>::new(&B::from_dimension(c.dim), c.place, 0, Fill::Index, 0);
    let need = mi.buf.len();
    let says = (need as i64 + c.says as i64).max(0) as usize;
    let mut chest = Chest::new(mi.buf.clone());
    chest.data.resize(says.max(need), 0.0);
    chest.seen = RefCell::new(vec![0; chest.data.len()]);
    chest.says = says;
    let tab = || Tab { base: B::from_dimension(c.dim), raw: mi.raw.clone() };
    if says < mi.n() {
        o.label("too-small");
        ensure!(refuses(|| GenericBaseMatrix::<f64, Tab<B>, _, Dynamic, Dynamic>::from_data(chest, tab())), "{c:?}: a container that says {says} was accepted for {} elements", mi.n());
        return Ok(());
    }
    if says < need {
        // enough items, but not where the layout puts the elements: unspecified for layouts the library cannot bound
        return Ok(());
    }
    o.label("fits");
    let m = GenericBaseMatrix::<f64, Tab<B>, _, Dynamic, Dynamic>::from_data(chest, tab());
    see(&m, c.dim, &mi.at, &format!("{c:?}"), &|i| mi.v(i))?;
    let z = MatrixD::<f64, B>::zeros_from_dim(c.dim.0, c.dim.1);
    see(&z, c.dim, &mi.at, &format!("{c:?} zeros"), &|_| 0.0)?;
    Ok(())
}

// --- products -----------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prod {
    ty: Ty,
    mkn: (usize, usize, usize),
    /// of A, B, C: by columns first, gap between lines, gap between neighbours, numbering
    st: [(bool, u8, u8, u8); 3],
    seed: u64,
    ab: (i8, i8),
    form: u8,
}
fn prods() -> BoxedStrategy<Prod> {
    let d = || prop_oneof![6 => 1usize..8, 2 => 8usize..40, 1 => Just(0usize)];
    let st = || (any::<bool>(), 0u8..4, 0u8..3, 0u8..5);
    (ty(), (d(), d(), d()), [st(), st(), st()], any::<u64>(), (-3i8..4, -3i8..4), 0u8..5)
        .prop_map(|(ty, mkn, st, seed, ab, form)| Prod { ty, mkn, st, seed, ab, form })
        .boxed()
}
fn strides(d: P, s: (bool, u8, u8, u8)) -> P {
    let near = 1 + s.2 as usize;
    if s.0 {
        (near, near * d.0.max(1) + s.1 as usize)
    } else {
        (near * d.1.max(1) + s.1 as usize, near)
    }
}
fn span(d: P, s: P) -> usize {
    if d.0 * d.1 == 0 {
        0
    } else {
        (d.0 - 1) * s.0 + (d.1 - 1) * s.1 + 1
    }
}
fn check_prod(c: &Prod, o: &mut Obs) -> Res {
    o.label(["matrix", "matrix", "matrix-vector", "vector-matrix", "dot"][c.form as usize]);
    let (m, k, n) = c.mkn;
    if m * k * n > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => match c.form {
        2 => prod_mv::<T>(c),
        3 => prod_vm::<T>(c),
        4 => prod_dot(c),
        _ => match (c.st[0].3 % 2, c.st[1].3 % 2, c.st[2].3 % 2) {
            (0, 0, _) => prod::<T, Num<Snake>, RowMajor, Num<Anti>>(c),
            (0, 1, 0) => prod::<T, ColumnMajor, Num<Back>, Num<Snake>>(c),
            (0, 1, _) => prod::<T, Num<Back>, Num<Back>, RowMajor>(c),
            (_, 0, _) => prod::<T, RowMajor, Num<Anti>, Num<Back>>(c),
            _ => prod::<T, Num<Anti>, ColumnMajor, ColumnMajor>(c),
        },
    })
}
struct Operand<T> {
    d: P,
    s: P,
    buf: Vec<T>,
}
impl<T: Sc> Operand<T> {
    fn new(d: P, st: (bool, u8, u8, u8), seed: u64, salt: u64) -> Self {
        let s = strides(d, st);
        Operand { d, s, buf: fill_vec(Fill::Ints(seed), salt, span(d, s)) }
    }
    fn at(&self, r: usize, c: usize) -> T {
        self.buf[r * self.s.0 + c * self.s.1]
    }
    fn lay<B: BaseLayoutType>(&self) -> Str<B> {
        Str { base: B::from_dimension(self.d), rs: self.s.0, cs: self.s.1 }
    }
}
/// alpha A B + beta C; all values are small integers, so every order of summation gives the same
fn reference<T: Sc>(alpha: T, a: &Operand<T>, b: &Operand<T>, beta: T, c: &Operand<T>) -> Vec<T> {
    let mut out = c.buf.clone();
    for i in 0..c.d.0 {
        for j in 0..c.d.1 {
            let mut s = T::mk(0.0, 0.0);
            for l in 0..a.d.1 {
                s = s.radd(a.at(i, l).rmul(b.at(l, j)))
            }
            out[i * c.s.0 + j * c.s.1] = alpha.rmul(s).radd(beta.rmul(c.at(i, j)));
        }
    }
    out
}
fn equal<T: Sc>(got: &[T], want: &[T], c: &Prod) -> Res {
    for i in 0..want.len() {
        // 0.0 and -0.0 are both right
        ensure!(got[i] == want[i], "{c:?}: item {i} of C is {}, should be {}", show(got[i]), show(want[i]));
    }
    Ok(())
}
fn scalars<T: Sc>(c: &Prod) -> (T, T) {
    (T::mk(c.ab.0 as f64, (c.ab.1 as f64) * 2.0), T::mk(c.ab.1 as f64, c.ab.0 as f64))
}
fn prod<T: Sc, B1: BaseLayoutType, B2: BaseLayoutType, B3: BaseLayoutType>(c: &Prod) -> Res {
    let (m, k, n) = c.mkn;
    let a = Operand::<T>::new((m, k), c.st[0], c.seed, 1);
    let b = Operand::<T>::new((k, n), c.st[1], c.seed, 2);
    let cc = Operand::<T>::new((m, n), c.st[2], c.seed, 3);
    let (alpha, beta) = scalars::<T>(c);
    let want = reference(alpha, &a, &b, beta, &cc);
    let ma = GenericBaseMatrix::<T, Str<B1>, Chest<T>, Dynamic, Dynamic>::from_data(Chest::new(a.buf.clone()), a.lay());
    let mb = SliceMatrix::<T, Str<B2>, Dynamic, Dynamic>::from_data(SliceContainer::new(&b.buf), b.lay());
    let chest = RefCell::new(Chest::new(cc.buf.clone()));
    let mut mc = GenericBaseMatrixMut::<T, Str<B3>, Lent<T>, Dynamic, Dynamic>::from_data(Lent::new(&chest), cc.lay());
    T::mm(alpha, &ma, &mb, beta, &mut mc);
    equal(&chest.borrow().data, &want, c)?;
    // dimensions that do not fit are refused and leave C as it is
    let wrong = Operand::<T>::new((k + 1, n), c.st[1], c.seed, 4);
    let mw = SliceMatrix::<T, Str<B2>, Dynamic, Dynamic>::from_data(SliceContainer::new(&wrong.buf), wrong.lay());
    ensure!(refuses(|| T::mm(alpha, &ma, &mw, beta, &mut mc)), "{c:?}: a product with {:?} x {:?} was not refused", a.d, wrong.d);
    drop(mc);
    equal(&chest.into_inner().data, &want, c)
}
fn prod_mv<T: Sc>(c: &Prod) -> Res {
    let (m, k, _) = c.mkn;
    let a = Operand::<T>::new((m, k), c.st[0], c.seed, 1);
    let b = Operand::<T>::new((k, 1), c.st[1], c.seed, 2);
    let cc = Operand::<T>::new((m, 1), c.st[2], c.seed, 3);
    let (alpha, beta) = scalars::<T>(c);
    let want = reference(alpha, &a, &b, beta, &cc);
    let ma = SliceMatrix::<T, Str<Num<Snake>>, Dynamic, Dynamic>::from_data(SliceContainer::new(&a.buf), a.lay());
    let mb = GenericBaseMatrix::<T, Str<ColumnVector>, Chest<T>, Dynamic, Fixed1>::from_data(Chest::new(b.buf.clone()), b.lay());
    let chest = RefCell::new(Chest::new(cc.buf.clone()));
    let mut mc = GenericBaseMatrixMut::<T, Str<ColumnVector>, Lent<T>, Dynamic, Fixed1>::from_data(Lent::new(&chest), cc.lay());
    T::mv(alpha, &ma, &mb, beta, &mut mc);
    drop(mc);
    equal(&chest.into_inner().data, &want, c)
}
fn prod_vm<T: Sc>(c: &Prod) -> Res {
    let (_, k, n) = c.mkn;
    let a = Operand::<T>::new((1, k), c.st[0], c.seed, 1);
    let b = Operand::<T>::new((k, n), c.st[1], c.seed, 2);
    let cc = Operand::<T>::new((1, n), c.st[2], c.seed, 3);
    let (alpha, beta) = scalars::<T>(c);
    let want = reference(alpha, &a, &b, beta, &cc);
    let ma = GenericBaseMatrix::<T, Str<RowVector>, Chest<T>, Fixed1, Dynamic>::from_data(Chest::new(a.buf.clone()), a.lay());
    let mb = SliceMatrix::<T, Str<Num<Back>>, Dynamic, Dynamic>::from_data(SliceContainer::new(&b.buf), b.lay());
    let chest = RefCell::new(Chest::new(cc.buf.clone()));
    let mut mc = GenericBaseMatrixMut::<T, Str<RowVector>, Lent<T>, Fixed1, Dynamic>::from_data(Lent::new(&chest), cc.lay());
    T::vm(alpha, &ma, &mb, beta, &mut mc);
    drop(mc);
    equal(&chest.into_inner().data, &want, c)
}
fn prod_dot(c: &Prod) -> Res {
    let (m, k, n) = c.mkn;
    let a = Operand::<f64>::new((m, k), c.st[0], c.seed, 1);
    let b = Operand::<f64>::new((k, n), c.st[1], c.seed, 2);
    let ma = GenericBaseMatrix::<f64, Str<Num<Snake>>, Chest<f64>, Dynamic, Dynamic>::from_data(Chest::new(a.buf.clone()), a.lay());
    let mb = SliceMatrix::<f64, Str<Num<Anti>>, Dynamic, Dynamic>::from_data(SliceContainer::new(&b.buf), b.lay());
    let r = ma.dot(&mb);
    ensure!(r.dim() == (m, n), "{c:?}: the product has dimension {:?}", r.dim());
    for i in 0..m {
        for j in 0..n {
            let want: f64 = (0..k).map(|l| a.at(i, l) * b.at(l, j)).sum();
            ensure!(r.get(i, j) == want, "{c:?}: element ({i},{j}) of the product is {}, should be {want}", r.get(i, j));
        }
    }
    Ok(())
}

pub fn c28() -> Vec<Sub> {
    vec![
        sub("histories", 200_000, 3_000_000, hists, check_hist),
        sub("large", 1_600, 20_000, hists_big, check_hist),
        sub("expressions", 200_000, 3_000_000, exprs, check_expr),
        sub("vectors", 100_000, 1_000_000, vecs, check_vecs),
        sub("construction", 150_000, 2_000_000, makes, check_make),
        sub("products", 120_000, 2_000_000, prods, check_prod),
    ]
}
