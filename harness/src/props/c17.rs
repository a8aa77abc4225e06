//! C17: containers and raw slices.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

// --- containers ----------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Con {
    Vec,
    Arr,
    Slice,
    SliceMut,
    /// a user's container that relies on the trait's own slice methods
    User,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    WriteItem(u32),
    WritePtr(u32),
    WriteSlice(u32, u32),
    /// read a range inside
    Read(u32, u32),
    /// a range that ends outside or is reversed
    Bad(u8, u64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cont {
    ty: Ty,
    con: Con,
    n: usize,
    pre: usize,
    post: usize,
    fill: Fill,
    ops: Vec<Op>,
}
const ARRS: [usize; 8] = [0, 1, 2, 3, 5, 8, 64, 100];

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => any::<u32>().prop_map(Op::WriteItem),
        2 => any::<u32>().prop_map(Op::WritePtr),
        3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Op::WriteSlice(a, b)),
        3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Op::Read(a, b)),
        1 => (0u8..6, any::<u64>(), any::<u64>()).prop_map(|(k, a, b)| Op::Bad(k, a, b)),
    ]
    .boxed()
}
fn conts() -> BoxedStrategy<Cont> {
    let n = prop_oneof![8 => 0usize..=9, 3 => 1usize..=70, 1 => 100usize..=3000];
    (ty(), prop::sample::select(vec![Con::Vec, Con::Arr, Con::Slice, Con::SliceMut, Con::User]), n, 0usize..=3, 0usize..=3, fill(), prop::collection::vec(op(), 0..10))
        .prop_map(|(ty, con, n, pre, post, fill, ops)| {
            let n = if con == Con::Arr { ARRS[n % 8] } else { n };
            Cont { ty, con, n, pre, post, fill, ops }
        })
        .boxed()
}

struct Own<T>(Vec<T>);
impl<T: Sc> DataContainer for Own<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, i: usize) -> T {
        self.0[i]
    }
    fn get_pointer(&self) -> *const T {
        self.0.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.0.len()
    }
}
impl<T: Sc> DataContainerMut for Own<T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
}

/// a non-empty range inside n > 0 items
fn range(n: usize, a: u32, b: u32) -> (usize, usize) {
    let (x, y) = (a as usize % n, b as usize % n);
    (x.min(y), x.max(y) + 1)
}
/// a range that must be refused
fn bad(n: usize, k: u8, a: u64, b: u64) -> (usize, usize) {
    let n64 = n as u64;
    let (f, l) = match k {
        0 => (a % (n64 + 1), n64 + 1),
        1 => (a % (n64 + 1), n64 + 1 + b % 9),
        2 => (a % (n64 + 1), u64::MAX - b % 9),
        // reversed
        3 => (b % (n64 + 1) + 1 + a % 5, b % (n64 + 1)),
        4 => (u64::MAX - a % 9, b % (n64 + 1)),
        // both far outside
        _ => {
            let f = n64 + a % 9;
            (f, f + 1 + b % 9)
        }
    };
    (f as usize, l as usize)
}

fn look<T: Sc, D: DataContainer<Item = T>>(d: &D, want: &[T], at: Option<usize>, what: &str) -> Res {
    let n = want.len();
    ensure!(d.number_of_elements() == n, "{what}: reports {} items, should be {n}", d.number_of_elements());
    if n == 0 {
        return Ok(());
    }
    let p = d.get_pointer();
    if let Some(at) = at {
        ensure!(p as usize == at, "{what}: the pointer is not the address of the caller's first item");
    }
    for (i, w) in want.iter().enumerate() {
        let v = unsafe { d.get_unchecked(i) };
        ensure!(v.same(*w), "{what}: item {i} is {}, should be {}", show(v), show(*w));
        let v = unsafe { *p.add(i) };
        ensure!(v.same(*w), "{what}: item {i} by pointer is {}, should be {}", show(v), show(*w));
    }
    ranged(d, want, 0, n, what)
}
fn ranged<T: Sc, D: DataContainer<Item = T>>(d: &D, want: &[T], f: usize, l: usize, what: &str) -> Res {
    let s = d.get_slice(f, l);
    ensure!(s.len() == l - f, "{what}: slice {f}..{l} has {} items", s.len());
    ensure!(s.as_ptr() == unsafe { d.get_pointer().add(f) }, "{what}: slice {f}..{l} does not lie in the container's memory at {f}");
    for i in f..l {
        ensure!(s[i - f].same(want[i]), "{what}: slice {f}..{l} shows {} at {i}, should be {}", show(s[i - f]), show(want[i]));
    }
    Ok(())
}

fn check_cont(c: &Cont, o: &mut Obs) -> Res {
    o.label(match c.con {
        Con::Vec => "vector-container",
        Con::Arr => "array-container",
        Con::Slice => "slice-container",
        Con::SliceMut => "mutable-slice-container",
        Con::User => "user-container",
    });
    o.label_if(c.n == 0, "empty");
    o.label_if(c.ops.iter().any(|x| matches!(x, Op::Bad(..))), "refused-range");
    if c.n > 1 && c.ops.iter().any(|x| !matches!(x, Op::Bad(..))) {
        o.hit()
    }
    with_ty!(c.ty, T => cont::<T>(c))
}
fn cont<T: Sc>(c: &Cont) -> Res {
    let what = format!("{:?} container of {} items", c.con, c.n);
    let (a, b) = (c.pre, c.pre + c.n);
    let mut mem: Vec<T> = fill_vec(c.fill, 0, c.pre + c.n + c.post);
    let mut want = mem.clone();
    let at = mem[a..].as_ptr() as usize;
    macro_rules! arr {
        ($($n:literal)*) => {
            match c.n {
                $($n => fresh::<T, _>(c, ArrayContainer::<T, $n>::new(), &what)
                    .and_then(|_| fresh::<T, _>(c, <ArrayContainer::<T, $n> as Default>::default(), &what)),)*
                n => panic!("no array of {n}"),
            }
        };
    }
    match c.con {
        Con::Vec => return fresh(c, VectorContainer::<T>::new(c.n), &what),
        Con::Arr => return arr!(0 1 2 3 5 8 64 100),
        Con::User => {
            let mut d = Own(mem[a..b].to_vec());
            let mut w = want[a..b].to_vec();
            return change(c, &mut d, &mut w, None, &what);
        }
        Con::Slice => {
            let d = SliceContainer::new(&mem[a..b]);
            look(&d, &want[a..b], Some(at), &what)?;
            reads(c, &d, &want[a..b], &what)?;
        }
        Con::SliceMut => {
            let mut d = SliceContainerMut::new(&mut mem[a..b]);
            change(c, &mut d, &mut want[a..b], Some(at), &what)?;
        }
    }
    for (i, (x, y)) in mem.iter().zip(&want).enumerate() {
        ensure!(x.same(*y), "{what}: afterwards the caller's memory holds {} at {i}, should be {}", show(*x), show(*y));
    }
    Ok(())
}
/// a container that allocated its items: zero at first
fn fresh<T: Sc, D: DataContainerMut<Item = T>>(c: &Cont, mut d: D, what: &str) -> Res {
    let mut w: Vec<T> = vec![T::mk(0.0, 0.0); c.n];
    look(&d, &w, None, &format!("new {what}"))?;
    change(c, &mut d, &mut w, None, what)
}
fn reads<T: Sc, D: DataContainer<Item = T>>(c: &Cont, d: &D, w: &[T], what: &str) -> Res {
    for op in &c.ops {
        match *op {
            Op::Bad(k, x, y) => {
                let (f, l) = bad(c.n, k, x, y);
                ensure!(refuses(|| d.get_slice(f, l).len()), "{what}: get_slice({f}, {l}) was accepted");
            }
            Op::Read(x, y) | Op::WriteSlice(x, y) if c.n > 0 => {
                let (f, l) = range(c.n, x, y);
                ranged(d, w, f, l, what)?;
            }
            _ => {}
        }
    }
    Ok(())
}
fn change<T: Sc, D: DataContainerMut<Item = T>>(c: &Cont, d: &mut D, w: &mut [T], at: Option<usize>, what: &str) -> Res {
    let n = c.n;
    look(d, w, at, what)?;
    if n > 0 {
        ensure!(d.get_pointer_mut() as usize == d.get_pointer() as usize, "{what}: the mutable pointer is another one");
    }
    for (k, op) in c.ops.iter().enumerate() {
        let v: T = elem(c.fill, 5, k);
        match *op {
            Op::Bad(k, x, y) => {
                let (f, l) = bad(n, k, x, y);
                ensure!(refuses(|| d.get_slice(f, l).len()), "{what}: get_slice({f}, {l}) was accepted");
                ensure!(refuses(|| d.get_slice_mut(f, l).len()), "{what}: get_slice_mut({f}, {l}) was accepted");
            }
            _ if n == 0 => {}
            Op::WriteItem(i) => {
                let i = i as usize % n;
                let r = unsafe { d.get_unchecked_mut(i) };
                ensure!(r.same(w[i]), "{what}: mutable item {i} shows {}, should be {}", show(*r), show(w[i]));
                *r = v;
                w[i] = v;
            }
            Op::WritePtr(i) => {
                let i = i as usize % n;
                unsafe { *d.get_pointer_mut().add(i) = v };
                w[i] = v;
            }
            Op::WriteSlice(x, y) => {
                let (f, l) = range(n, x, y);
                let p = d.get_pointer();
                let s = d.get_slice_mut(f, l);
                ensure!(s.len() == l - f, "{what}: mutable slice {f}..{l} has {} items", s.len());
                ensure!(s.as_ptr() == unsafe { p.add(f) }, "{what}: mutable slice {f}..{l} does not lie in the container's memory at {f}");
                for i in f..l {
                    ensure!(s[i - f].same(w[i]), "{what}: mutable slice {f}..{l} shows {} at {i}, should be {}", show(s[i - f]), show(w[i]));
                    let v: T = elem(c.fill, 6 + k as u64, i);
                    s[i - f] = v;
                    w[i] = v;
                }
            }
            Op::Read(x, y) => {
                let (f, l) = range(n, x, y);
                ranged(d, w, f, l, what)?;
            }
        }
        look(d, w, at, what)?;
    }
    Ok(())
}

// --- matrices ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum MOp {
    Read(u32, u32),
    /// write a range through the mutable slice
    Slice(u32, u32),
    /// write an element
    Elem(u32, bool),
    /// write through the raw pointer
    Ptr(u32),
    /// a range that must be refused
    Bad(u8, u64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mat {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    ops: Vec<MOp>,
}
fn mop() -> BoxedStrategy<MOp> {
    prop_oneof![
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| MOp::Read(a, b)),
        3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| MOp::Slice(a, b)),
        2 => (any::<u32>(), any::<bool>()).prop_map(|(a, b)| MOp::Elem(a, b)),
        1 => any::<u32>().prop_map(MOp::Ptr),
        1 => (0u8..6, any::<u64>(), any::<u64>()).prop_map(|(k, a, b)| MOp::Bad(k, a, b)),
    ]
    .boxed()
}
fn mats() -> BoxedStrategy<Mat> {
    gen_mats(dims())
}
fn mats_big() -> BoxedStrategy<Mat> {
    gen_mats(big_dims())
}
fn mats_huge() -> BoxedStrategy<Mat> {
    gen_mats(huge_dims())
}
fn gen_mats(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Mat> {
    (ty(), spec_kinds(&ALL_KINDS, d, ANY), fill(), prop::collection::vec(mop(), 1..10))
        .prop_map(|(ty, s, fill, ops)| Mat { ty, s, fill, ops })
        .boxed()
}
fn check_mat(c: &Mat, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    if c.s.n() > 1 {
        o.hit()
    }
    o.label_if(c.ops.iter().any(|x| matches!(x, MOp::Bad(..))), "refused-range");
    o.label_if(c.s.clen > c.s.n(), "items-between-or-behind-elements");
    with_ty!(c.ty, T => mat::<T>(c))
}
fn slice_is<T: Sc>(s: &[T], want: &Model<T>, f: usize, l: usize, p: *const T, what: &str) -> Res {
    ensure!(s.len() == l - f, "{what}: slice {f}..{l} has {} items", s.len());
    ensure!(s.as_ptr() == unsafe { p.add(f) }, "{what}: slice {f}..{l} does not start at raw position {f}");
    for i in f..l {
        let w = want.buf[want.spec.off + i];
        ensure!(s[i - f].same(w), "{what}: slice {f}..{l} shows {} at raw position {i}, should be {}", show(s[i - f]), show(w));
    }
    Ok(())
}
fn mat<T: Sc>(c: &Mat) -> Res {
    let mut model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let base = buf.as_ptr() as usize;
    let (n, len, off, sh) = (c.s.n(), c.s.clen, c.s.off, c.s.shape());
    let direct = matches!(c.s.store, Store::Slice | Store::Ptr | Store::Block);
    let what = c.s.describe();
    let mut res = Ok(());
    if !matches!(c.s.kind, Kind::FR | Kind::FC | Kind::FRV | Kind::FCV) {
        with_ro(&c.s, &buf, &mut |m| {
            res = (|| {
                let p = m.ptr();
                if n > 0 {
                    ensure!(p as usize == base + off * std::mem::size_of::<T>(), "read-only {what}: the pointer is not the address of item 0");
                }
                if len > 0 {
                    slice_is(m.slice(0, len), &model, 0, len, p, &format!("read-only {what}"))?;
                }
                for op in &c.ops {
                    match *op {
                        MOp::Read(a, b) | MOp::Slice(a, b) if len > 0 => {
                            let (f, l) = range(len, a, b);
                            slice_is(m.slice(f, l), &model, f, l, p, &format!("read-only {what}"))?;
                        }
                        MOp::Bad(k, x, y) => {
                            let (f, l) = bad(len, k, x, y);
                            ensure!(refuses(|| m.slice(f, l).len()), "read-only {what}: get_slice({f}, {l}) was accepted");
                        }
                        _ => {}
                    }
                }
                Ok(())
            })()
        });
    }
    res?;
    let mut res = Ok(());
    with_stored(&c.s, &mut buf, &mut |m| {
        res = (|| {
            if len == 0 {
                for op in &c.ops {
                    if let MOp::Bad(k, x, y) = *op {
                        let (f, l) = bad(0, k, x, y);
                        ensure!(refuses(|| m.slice(f, l).len()), "{what}: get_slice({f}, {l}) was accepted");
                        ensure!(refuses(|| m.slice_mut(f, l).len()), "{what}: get_slice_mut({f}, {l}) was accepted");
                    }
                }
                return Ok(());
            }
            let p = m.ptr();
            ensure!(m.ptr_mut() as usize == p as usize, "{what}: the mutable pointer is another one");
            if direct && n > 0 {
                ensure!(p as usize == base + off * std::mem::size_of::<T>(), "{what}: the pointer is not the address of item 0");
            }
            for (k, op) in c.ops.iter().enumerate() {
                let v: T = elem(c.fill, 40, k);
                match *op {
                    MOp::Read(a, b) => {
                        let (f, l) = range(len, a, b);
                        slice_is(m.slice(f, l), &model, f, l, p, &what)?;
                    }
                    MOp::Slice(a, b) => {
                        let (f, l) = range(len, a, b);
                        let s = m.slice_mut(f, l);
                        slice_is(s, &model, f, l, p, &format!("mutable {what}"))?;
                        for i in f..l {
                            let v: T = elem(c.fill, 6 + k as u64, i);
                            s[i - f] = v;
                            model.buf[off + i] = v;
                        }
                    }
                    MOp::Elem(i, pair) if n > 0 => {
                        let i = i as usize % n;
                        let (r, q) = sh.at(i);
                        if pair {
                            *m.at_mut(r, q) = v
                        } else {
                            *m.at1_mut(i) = v
                        }
                        model.set(r, q, v);
                    }
                    MOp::Ptr(i) => {
                        let i = i as usize % len;
                        unsafe { *m.ptr_mut().add(i) = v };
                        model.buf[off + i] = v;
                    }
                    MOp::Bad(k, x, y) => {
                        let (f, l) = bad(len, k, x, y);
                        ensure!(refuses(|| m.slice(f, l).len()), "{what}: get_slice({f}, {l}) was accepted");
                        ensure!(refuses(|| m.slice_mut(f, l).len()), "{what}: get_slice_mut({f}, {l}) was accepted");
                    }
                    _ => {}
                }
                slice_is(m.slice(0, len), &model, 0, len, p, &what)?;
                if n <= 300 {
                    model.check_view(m, false)?;
                }
            }
            model.check_view(m, n <= 300)
        })()
    });
    res?;
    model.check_buf(&buf)
}

pub fn c17() -> Vec<Sub> {
    vec![
        sub("containers", 120_000, 2_000_000, conts, check_cont),
        sub("matrices", 100_000, 2_000_000, mats, check_mat),
        sub("matrices_large", 500, 4_000, mats_big, check_mat),
        sub("matrices_huge", 8, 300, mats_huge, check_mat),
    ]
}
