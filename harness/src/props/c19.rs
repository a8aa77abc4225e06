//! C19: safe calls with adversarial arguments stay inside the storage.
//!
//! The storage of every case lies in a mapped area of its own: a few writable pages inside a large inaccessible
//! reservation, so that an access outside faults (the supervisor then finds and shrinks the case), writes next to
//! the storage are seen in its surroundings, and values read must be values of the storage.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vh::engine::*;
use vh::mats::*;
use vh::mul::{run, AnyRo, Form};
use vh::scal::*;
use vh::{any_ro, with_ty};

// --- the guarded areas ---------------------------------------------------------------------------------------

const SIDE: usize = 1 << 30;
const LEN: usize = 16 << 10;
const PAT: u8 = 0xFB;

struct Area(*mut u8);
impl Area {
    fn new() -> Self {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 2 * SIDE + LEN, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED, "no address space");
            let q = (p as *mut u8).add(SIDE);
            assert!(libc::mprotect(q as *mut _, LEN, libc::PROT_READ | libc::PROT_WRITE) == 0);
            Area(q)
        }
    }
}
thread_local! {
    static AREAS: RefCell<Vec<Area>> = const { RefCell::new(Vec::new()) };
}
fn area(k: usize) -> *mut u8 {
    AREAS.with(|a| {
        let mut a = a.borrow_mut();
        while a.len() <= k {
            a.push(Area::new())
        }
        a[k].0
    })
}
/// Storage of `items` values in area `k`, flush with its start or end.
struct Mem<T: 'static> {
    k: usize,
    end: bool,
    items: usize,
    p: std::marker::PhantomData<T>,
}
impl<T: Sc> Mem<T> {
    fn new(k: usize, end: bool, items: usize, salt: u64) -> Self {
        let m = Mem { k, end, items, p: std::marker::PhantomData };
        unsafe { std::ptr::write_bytes(area(k), PAT, LEN) };
        for (i, x) in m.slice().iter_mut().enumerate() {
            *x = elem(Fill::Index, salt, i);
        }
        m
    }
    fn at(&self) -> usize {
        if self.end {
            LEN - self.items * std::mem::size_of::<T>()
        } else {
            0
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn slice(&self) -> &'static mut [T] {
        assert!(self.items * std::mem::size_of::<T>() <= LEN);
        unsafe { std::slice::from_raw_parts_mut(area(self.k).add(self.at()) as *mut T, self.items) }
    }
    /// nothing around the storage changed
    fn intact(&self) -> Res {
        let (lo, hi) = (self.at(), self.at() + self.items * std::mem::size_of::<T>());
        for i in (0..lo).chain(hi..LEN) {
            if unsafe { area(self.k).add(i).read() } != PAT {
                return fail_sig("outside", format!("a byte {} the storage was written", if i < lo { "before" } else { "after" }));
            }
        }
        Ok(())
    }
}

// --- numbers -------------------------------------------------------------------------------------------------

/// An argument, resolved against the bound that applies to it and other numbers in play.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum N {
    /// inside the bound
    In(u16),
    /// near the bound
    Edge(i8),
    /// close to the largest number
    Max(u8),
    /// near a power of two
    Pow(u8, i8),
    /// wraps around when the bound or another number is added
    Neg(u8, i8),
    /// wraps around when multiplied
    Div(u8, u8, i8),
}
impl N {
    fn get(self, bound: usize, refs: &[usize]) -> usize {
        let pick = |k: u8| {
            let n = refs.len() + 1;
            match k as usize % n {
                0 => bound,
                i => refs[i - 1],
            }
        };
        let add = |x: usize, d: i8| x.wrapping_add(d as isize as usize);
        match self {
            N::In(x) => {
                if bound == 0 {
                    0
                } else {
                    x as usize % bound
                }
            }
            N::Edge(d) => add(bound, d),
            N::Max(k) => usize::MAX - k as usize,
            N::Pow(b, d) => add(1usize << (b % 64), d),
            N::Neg(k, d) => add(0usize.wrapping_sub(pick(k)), d),
            N::Div(k, b, d) => add(((1u128 << (64 - b as u32 % 4)) / pick(k).max(1) as u128) as usize, d),
        }
    }
}
fn num() -> BoxedStrategy<N> {
    prop_oneof![
        10 => any::<u16>().prop_map(N::In),
        5 => (-2i8..=2).prop_map(N::Edge),
        2 => (0u8..6).prop_map(N::Max),
        1 => (any::<u8>(), -2i8..=2).prop_map(|(b, d)| N::Pow(b, d)),
        2 => (any::<u8>(), -3i8..=12).prop_map(|(b, d)| N::Neg(b, d)),
        2 => (any::<u8>(), any::<u8>(), -3i8..=3).prop_map(|(k, b, d)| N::Div(k, b, d)),
    ]
    .boxed()
}

fn inverse(a: u64) -> u64 {
    // of an odd number modulo 2^64
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

/// Two numbers whose product wraps to something small.
fn wrapping_pair() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        (1u32..64, 0u64..4).prop_map(|(i, t)| (1usize << i, ((1u128 << (64 - i)) as u64).wrapping_add(t) as usize)),
        (2u64..300, 0u64..3).prop_map(|(a, t)| (a as usize, ((1u128 << 64) / a as u128) as usize + 1 + t as usize)),
        (any::<u64>(), 0u64..40).prop_map(|(a, t)| ((a | 1) as usize, inverse(a | 1).wrapping_mul(t) as usize)),
        (any::<u32>(), any::<u32>()).prop_map(|(a, b)| ((a as usize) << 32, (b as usize) << 32)),
    ]
    .prop_flat_map(|(a, b)| any::<bool>().prop_map(move |s| if s { (a, b) } else { (b, a) }))
    .boxed()
}
fn huge() -> BoxedStrategy<usize> {
    prop_oneof![
        (0usize..4).prop_map(|k| usize::MAX - k),
        (20u32..64, -1i64..=1).prop_map(|(b, d)| (1usize << b).wrapping_add(d as usize)),
        any::<usize>(),
    ]
    .boxed()
}
fn any_dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        12 => (1usize..=6, 1usize..=6),
        4 => (0usize..=12, 0usize..=12),
        2 => wrapping_pair(),
        1 => (Just(0usize), huge()),
        1 => (huge(), Just(0usize)),
        1 => (1usize..3, huge()),
        1 => (huge(), 1usize..3),
        1 => (huge(), huge()),
    ]
    .boxed()
}
/// A stride for `n` elements next to elements spaced `other`.
fn any_stride(n: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        10 => 0usize..=12,
        2 => (0usize..12).prop_map(|k| usize::MAX - k),
        2 => (0usize..12, 0u32..3).prop_map(move |(d, b)| (((1u128 << (64 - b)) / n.saturating_sub(1).max(1) as u128) as usize).wrapping_add(d)),
        1 => (0u64..40).prop_map(move |t| inverse((n as u64).wrapping_sub(1) | 1).wrapping_mul(t) as usize),
        1 => huge(),
    ]
    .boxed()
}

/// Positions the layout really spans (not wrapped), and how many elements it really has.
fn truth(s: &MSpec) -> (u128, u128) {
    let (r, c) = (s.rows as u128, s.cols as u128);
    if s.kind == Kind::UT {
        let n = r * (r + 1) / 2;
        return (n, n);
    }
    if r == 0 || c == 0 {
        return (0, 0);
    }
    let e = (s.sr as u128).saturating_mul(r - 1).saturating_add((s.sc as u128).saturating_mul(c - 1)).saturating_add(1);
    (e, r.saturating_mul(c))
}

fn adversarial(kinds: &'static [Kind], d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<MSpec> {
    (prop::sample::select(kinds.to_vec()), d)
        .prop_flat_map(|(kind, (mut rows, mut cols))| {
            use Kind::*;
            match kind {
                UT => cols = rows,
                RVD | RV | SRV => rows = 1,
                CVD | CV | SCV => cols = 1,
                _ => {}
            }
            let st = match kind {
                RM => Just((cols, 1)).boxed(),
                CM => Just((1, rows)).boxed(),
                SRM | SCM => prop_oneof![
                    4 => (any_stride(rows), any_stride(cols)),
                    2 => (0usize..4).prop_map(move |p| (cols.saturating_add(p), 1)),
                    2 => (0usize..4).prop_map(move |p| (1, rows.saturating_add(p))),
                ].boxed(),
                SRV => any_stride(cols).prop_map(|s| (1, s)).boxed(),
                SCV => any_stride(rows).prop_map(|s| (s, 1)).boxed(),
                _ => Just((1, 1)).boxed(),
            };
            (Just((kind, rows, cols)), st, 0u8..12, 0usize..=300, 0usize..4)
        })
        .prop_map(|((kind, rows, cols), (sr, sc), how, x, p)| {
            let mut s = MSpec { kind, store: Store::Slice, rows, cols, sr, sc, off: 0, clen: 0, total: 0, top: 0, left: 0, pdim: (0, 0) };
            let (e, n) = truth(&s);
            let cut = |v: u128| v.min(300) as usize;
            let items = match how {
                0..=4 => cut(e.max(n)),
                5 => cut(e),
                6 => cut(n),
                7 => cut(e.max(n)).saturating_sub(1 + p),
                8 => cut(e.max(n)) + p,
                _ => x,
            };
            s.clen = items;
            s.total = items;
            s
        })
        .boxed()
}

// --- programs ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Read {
    At(N, N),
    One(N),
    Slice(N, N),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Read(Read),
    Write(N, N),
    Write1(N),
    SliceMut(N, N),
    ForEach,
    Fill,
    Eval(u8, Vec<Read>),
    Scaled(u8, Vec<Read>),
    Doubled(u8, Vec<Read>),
    Wrap(u8, Vec<Read>),
    WrapMut(u8, N, N),
    Block([N; 4], Vec<Step>),
    BlockMut([N; 4], Vec<Step>),
    Split(N, N, u8, Vec<Step>),
}

fn read() -> BoxedStrategy<Read> {
    prop_oneof![
        3 => (num(), num()).prop_map(|(a, b)| Read::At(a, b)),
        2 => num().prop_map(Read::One),
        1 => (num(), num()).prop_map(|(a, b)| Read::Slice(a, b)),
    ]
    .boxed()
}
fn rect() -> BoxedStrategy<[N; 4]> {
    // a position and a size, mostly a valid one
    prop_oneof![
        3 => (any::<u16>(), any::<u16>(), -2i8..=1, -2i8..=1).prop_map(|(a, b, c, d)| [N::In(a), N::In(b), N::Edge(c), N::Edge(d)]),
        3 => [num(), num(), num(), num()],
    ]
    .boxed()
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let reads = || prop::collection::vec(read(), 0..4);
    let leaf = prop_oneof![
        6 => read().prop_map(Step::Read),
        4 => (num(), num()).prop_map(|(a, b)| Step::Write(a, b)),
        2 => num().prop_map(Step::Write1),
        2 => (num(), num()).prop_map(|(a, b)| Step::SliceMut(a, b)),
        1 => Just(Step::ForEach),
        1 => Just(Step::Fill),
        1 => (any::<u8>(), reads()).prop_map(|(f, r)| Step::Eval(f, r)),
        1 => (any::<u8>(), reads()).prop_map(|(f, r)| Step::Scaled(f, r)),
        1 => (any::<u8>(), reads()).prop_map(|(f, r)| Step::Doubled(f, r)),
        1 => (any::<u8>(), reads()).prop_map(|(f, r)| Step::Wrap(f, r)),
        1 => (any::<u8>(), num(), num()).prop_map(|(f, a, b)| Step::WrapMut(f, a, b)),
    ]
    .boxed();
    let tree = leaf.prop_recursive(4, 24, 5, |inner| {
        let sub = || prop::collection::vec(inner.clone(), 0..5);
        prop_oneof![
            2 => inner.clone(),
            2 => (rect(), sub()).prop_map(|(r, s)| Step::Block(r, s)),
            2 => (rect(), sub()).prop_map(|(r, s)| Step::BlockMut(r, s)),
            1 => (num(), num(), any::<u8>(), sub()).prop_map(|(a, b, q, s)| Step::Split(a, b, q, s)),
        ]
    });
    prop::collection::vec(tree, 1..7).boxed()
}

/// What the program may see, and what happened.
struct World<T: Sc> {
    allowed: Vec<T>,
    mem: Option<&'static [T]>,
    refs: Vec<usize>,
    salt: usize,
    done: u32,
    refused: u32,
    blocks: bool,
    bad: Res,
}
impl<T: Sc> World<T> {
    /// Run a call that may be refused.
    fn call<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        let mut out = None;
        if refuses(|| out = Some(f())) {
            self.refused += 1
        } else {
            self.done += 1
        }
        out
    }
    fn saw(&mut self, v: T, scale: f64, how: &str) {
        let ok = self.allowed.iter().any(|a| if scale == 1.0 { a.same(v) } else { a.rmul(T::mk(scale, 0.0)).same(v) });
        if !ok && self.bad.is_ok() {
            self.bad = fail_sig("outside", format!("{how} returned {}, which is not a value of the storage", show(v)));
        }
    }
    fn fresh(&mut self) -> T {
        self.salt += 1;
        let v = elem(Fill::Index, 5, 4000 + self.salt);
        self.allowed.push(v);
        v
    }
    /// after calls that write values of their own
    fn take_contents(&mut self) {
        if let Some(m) = self.mem {
            let m = std::hint::black_box(m);
            self.allowed.extend_from_slice(m);
        }
    }
    fn rc(&self, m: &dyn View<T>, r: N, c: N) -> (usize, usize) {
        let d = m.dim();
        let mut f = vec![d.0, d.1];
        f.extend(&self.refs);
        (r.get(d.0, &f), c.get(d.1, &f))
    }
    fn one(&self, m: &dyn View<T>, i: N) -> usize {
        let d = m.dim();
        let mut f = vec![d.0, d.1];
        f.extend(&self.refs);
        i.get(m.nelems(), &f)
    }
    fn range(&self, a: N, b: N, span: usize) -> Option<(usize, usize)> {
        let mut f = vec![1];
        f.extend(&self.refs);
        let (a, b) = (a.get(span, &f), b.get(span + 1, &f));
        // (the result for equal bounds is not specified)
        (a != b).then_some((a, b))
    }
    fn read_view(&mut self, m: &dyn View<T>, r: &Read, scale: f64) {
        match r {
            Read::At(r, c) => {
                let (r, c) = self.rc(m, *r, *c);
                if let Some(v) = self.call(|| m.rd(r, c)) {
                    self.saw(v, scale, &format!("get({r}, {c})"))
                }
            }
            Read::One(i) => {
                let i = self.one(m, *i);
                if let Some(v) = self.call(|| m.get1(i)) {
                    self.saw(v, scale, &format!("get1d({i})"))
                }
            }
            Read::Slice(..) => {}
        }
    }
    fn read(&mut self, m: &dyn Held<T>, r: &Read) {
        if let Read::Slice(a, b) = r {
            let span = self.refs[0];
            let Some((a, b)) = self.range(*a, *b, span) else { return };
            if let Some(s) = self.call(|| m.slice(a, b)) {
                // looking at a wrong slice may fault; that is the point
                for &v in s.iter().take(400) {
                    self.saw(v, 1.0, &format!("get_slice({a}, {b})"))
                }
                if s.len() > 400 {
                    self.saw(s[s.len() - 1], 1.0, &format!("get_slice({a}, {b})"))
                }
            }
        } else {
            self.read_view(m, r, 1.0)
        }
    }
    fn stored(&mut self, m: &mut dyn Stored<T>, st: &Step) {
        match st {
            Step::Read(r) => self.read(m, r),
            Step::Write(r, c) => {
                let (r, c) = self.rc(m, *r, *c);
                let v = self.fresh();
                self.call(|| *m.at_mut(r, c) = v);
            }
            Step::Write1(i) => {
                let i = self.one(m, *i);
                let v = self.fresh();
                self.call(|| *m.at1_mut(i) = v);
            }
            Step::SliceMut(a, b) => {
                let span = self.refs[0];
                let Some((a, b)) = self.range(*a, *b, span) else { return };
                let v = self.fresh();
                self.call(|| {
                    let s = m.slice_mut(a, b);
                    let n = s.len();
                    if n > 0 {
                        s[0] = v;
                        s[n - 1] = v;
                    }
                });
            }
            Step::ForEach => {
                if m.nelems() <= 100_000 {
                    let v = self.fresh();
                    let mut seen = Vec::new();
                    self.call(|| {
                        m.for_each(&mut |x| {
                            seen.push(*x);
                            *x = v
                        })
                    });
                    for x in seen {
                        self.saw(x, 1.0, "for_each")
                    }
                }
            }
            Step::Fill => {
                if m.nelems() <= 100_000 {
                    use rand::SeedableRng;
                    let mut rng = rand::rngs::StdRng::seed_from_u64(self.salt as u64);
                    self.call(|| m.fill(&mut rng));
                    self.take_contents();
                    // owned storage: what an accessible element shows
                    if self.mem.is_none() {
                        self.allowed.extend((0..m.nelems()).map(|i| m.get1(i)));
                    }
                }
            }
            Step::WrapMut(d, r, c) => {
                let (r, c) = self.rc(m, *r, *c);
                let v = self.fresh();
                self.call(|| m.wrap_mut(*d as usize % 3 + 1, &mut |w| *w.at_mut(r, c) = v));
            }
            _ => {}
        }
    }
    fn evaluated(&mut self, e: Option<Box<dyn Stored<T>>>, reads: &[Read], scale: f64) {
        if let Some(e) = e {
            for i in 0..e.nelems().min(400) {
                let v = e.get1(i);
                self.saw(v, scale, "an element of the evaluated matrix")
            }
            for r in reads {
                self.read_view(&*e, r, scale)
            }
        }
    }
    fn dynamic(&mut self, m: &dyn DynHeld<T>, st: &Step) {
        if m.nelems() > 100_000 {
            return;
        }
        if let Step::Eval(f, reads) = st {
            let f = *f as usize;
            let (e, scale) = match f % 3 {
                0 => (self.call(|| m.eval_wrapped(f / 3)), 1.0),
                1 => (self.call(|| m.eval_scaled(T::mk(2.0, 0.0), f / 3)), 2.0),
                _ => (self.call(|| m.eval_doubled(f / 3)), 2.0),
            };
            self.evaluated(e, reads, scale)
        }
    }
    fn alg(&mut self, m: &mut dyn AlgStored<T>, st: &Step) {
        match st {
            Step::Scaled(f, reads) => {
                // the closure's own calls are caught one by one
                let mut w = std::mem::replace(self, World::empty());
                let r = refuses(|| m.scaled(T::mk(2.0, 0.0), *f as usize, &mut |v| for r in reads { w.read_view(v, r, 2.0) }));
                w.refused += r as u32;
                *self = w;
            }
            Step::Doubled(f, reads) => {
                let mut w = std::mem::replace(self, World::empty());
                let r = refuses(|| m.doubled(*f as usize, &mut |v| for r in reads { w.read_view(v, r, 2.0) }));
                w.refused += r as u32;
                *self = w;
            }
            Step::Wrap(f, reads) => {
                let mut w = std::mem::replace(self, World::empty());
                let r = refuses(|| m.wrap(*f as usize % 4, &mut |v| for r in reads { w.read_view(v, r, 1.0) }));
                w.refused += r as u32;
                *self = w;
            }
            _ => self.stored(m, st),
        }
    }
    fn empty() -> Self {
        World { allowed: vec![], mem: None, refs: vec![0], salt: 0, done: 0, refused: 0, blocks: false, bad: Ok(()) }
    }
    fn rect(&self, m: &dyn View<T>, r: &[N; 4]) -> ((usize, usize), (usize, usize)) {
        let d = m.dim();
        let tl = self.rc(m, r[0], r[1]);
        let left = (d.0.wrapping_sub(tl.0), d.1.wrapping_sub(tl.1));
        let f: Vec<usize> = vec![tl.0, tl.1].into_iter().chain(self.refs.iter().copied()).collect();
        (tl, (r[2].get(left.0, &f), r[3].get(left.1, &f)))
    }
    fn blk(&mut self, m: &dyn Blk<T>, st: &Step) {
        match st {
            Step::Read(r) => self.read(m, r),
            Step::Eval(..) => self.dynamic(m, st),
            Step::Block(r, sub) | Step::BlockMut(r, sub) => {
                let (tl, d) = self.rect(m, r);
                let mut w = std::mem::replace(self, World::empty());
                let no = refuses(|| {
                    m.blk(tl, d, &mut |b| {
                        w.blocks = true;
                        for s in sub {
                            w.blk(b, s)
                        }
                    })
                });
                w.refused += no as u32;
                *self = w;
            }
            _ => {}
        }
    }
    fn blk_mut(&mut self, m: &mut dyn BlkMut<T>, st: &Step, can_split: bool) {
        match st {
            Step::Block(..) => self.blk(m, st),
            Step::Eval(..) => self.dynamic(m, st),
            Step::BlockMut(r, sub) => {
                let (tl, d) = self.rect(m, r);
                let mut w = std::mem::replace(self, World::empty());
                let no = refuses(|| {
                    m.blk_mut(tl, d, &mut |b| {
                        w.blocks = true;
                        for s in sub {
                            w.blk_mut(b, s, false)
                        }
                    })
                });
                w.refused += no as u32;
                *self = w;
            }
            Step::Split(a, b, q, sub) if can_split => {
                let at = self.rc(m, *a, *b);
                let mut w = std::mem::replace(self, World::empty());
                let no = refuses(|| {
                    m.split(at, &mut |mut qs| {
                        w.blocks = true;
                        for (i, s) in sub.iter().enumerate() {
                            w.blk_mut(qs[(*q as usize + i) % 4], s, false)
                        }
                    })
                });
                w.refused += no as u32;
                *self = w;
            }
            _ => self.stored(m, st),
        }
    }
}

/// which access paths the matrix is built with
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Via {
    Blocks,
    Algebra,
    Dynamic,
    Plain,
    ReadOnly,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    ty: Ty,
    via: Via,
    s: MSpec,
    end: bool,
    steps: Vec<Step>,
}

fn progs() -> BoxedStrategy<Prog> {
    let with = |via: Via, kinds: &'static [Kind]| {
        (ty(), adversarial(kinds, any_dims()), any::<bool>(), steps()).prop_map(move |(ty, s, end, steps)| Prog { ty, via, s, end, steps })
    };
    let progs = prop_oneof![
        5 => with(Via::Blocks, &DYN_MATS),
        2 => with(Via::Algebra, &RO_KINDS),
        1 => with(Via::Dynamic, &DYN_KINDS),
        2 => with(Via::Plain, &RO_KINDS),
        1 => with(Via::ReadOnly, &RO_KINDS),
    ];
    (progs, 0u8..8)
        .prop_map(|(mut p, own)| {
            // mostly over the caller's memory, sometimes over a container that holds its items
            match (p.via, own) {
                (Via::ReadOnly, _) => {}
                (Via::Plain, 0..=3) => {
                    p.s.store = Store::Arr;
                    p.s.clen = ARR;
                    p.s.total = ARR;
                }
                (_, 4) => p.s.store = Store::Vec,
                _ => {}
            }
            p
        })
        .boxed()
}

fn judge<T: Sc>(w: World<T>, o: &mut Obs, what: &str) -> Res {
    o.label_if(w.done > 0, "some-call-answered");
    o.label_if(w.refused > 0, "some-call-refused");
    o.label_if(w.blocks, "blocks-taken");
    if w.done > 0 && w.refused > 0 {
        o.hit()
    }
    w.bad.map_err(|mut f| {
        f.msg = format!("{what}: {}", f.msg);
        f
    })
}

fn check_prog(c: &Prog, o: &mut Obs) -> Res {
    with_ty!(c.ty, T => prog::<T>(c, o))
}
fn prog<T: Sc>(c: &Prog, o: &mut Obs) -> Res {
    let s = &c.s;
    let mem = Mem::<T>::new(0, c.end, s.total, 0);
    let (e, n) = truth(s);
    o.label_if(e > s.total as u128 || n > s.total as u128, "does-not-fit");
    o.label_if(e >= 1 << 64 || n >= 1 << 64, "arithmetic-overflows");
    o.label_if(n == 0, "empty");
    o.label(match s.store {
        Store::Arr => "array-container",
        Store::Vec => "vector-container",
        _ => "caller-memory",
    });
    let buf = mem.slice();
    let mut w = World {
        allowed: buf.to_vec(), mem: (s.store == Store::Slice).then(|| mem.slice() as &[T]), refs: vec![s.clen, s.sr, s.sc], salt: 0, done: 0, refused: 0, blocks: false, bad: Ok(()),
    };
    let split = s.kind == Kind::RM;
    let no = refuses(|| match c.via {
        Via::Blocks => with_blk(s, buf, &mut |m| {
            o.label("built");
            for st in &c.steps {
                w.blk_mut(m, st, split)
            }
        }),
        Via::Algebra => with_alg(s, buf, &mut |m| {
            o.label("built");
            for st in &c.steps {
                w.alg(m, st)
            }
        }),
        Via::Dynamic => with_dyn(s, buf, &mut |m| {
            o.label("built");
            for st in &c.steps {
                match st {
                    Step::Eval(..) => w.dynamic(m, st),
                    _ => w.stored(m, st),
                }
            }
        }),
        Via::Plain => with_stored(s, buf, &mut |m| {
            o.label("built");
            for st in &c.steps {
                w.stored(m, st)
            }
        }),
        Via::ReadOnly => with_ro(s, buf, &mut |m| {
            o.label("built");
            for st in &c.steps {
                if let Step::Read(r) = st {
                    w.read(m, r)
                }
            }
        }),
    });
    w.refused += no as u32;
    if no {
        // refusing what really does not fit is what construction has to do here
        o.label("construction-refused");
        if n > 0 && e > s.total as u128 || n > s.total as u128 {
            o.hit()
        }
    }
    let what = format!("{:?} {}x{} stride ({},{}) over {} items", s.kind, s.rows, s.cols, s.sr, s.sc, s.clen);
    mem.intact().map_err(|mut f| {
        f.msg = format!("{what}: {}", f.msg);
        f
    })?;
    judge(w, o, &what)
}

// --- containers themselves -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Con {
    Vec,
    Arr,
    Slice,
    SliceMut,
    User,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ranges {
    ty: Ty,
    con: Con,
    items: usize,
    end: bool,
    /// (from, to, mutably)
    asks: Vec<(N, N, bool)>,
    /// a matrix over the container, asked instead of the container itself (its stride, at most as far as it reaches)
    through: Option<(usize, usize)>,
}
const ARRS: [usize; 9] = [0, 1, 2, 3, 5, 8, 16, 33, 100];
fn ranges() -> BoxedStrategy<Ranges> {
    let n = prop_oneof![6 => 0usize..=9, 2 => 1usize..=70, 1 => 100usize..=900];
    let asks = prop::collection::vec((num(), num(), any::<bool>()), 1..8);
    let through = prop_oneof![1 => Just(None), 1 => (0usize..6, 1usize..4).prop_map(Some)];
    (ty(), prop::sample::select(vec![Con::Vec, Con::Arr, Con::Arr, Con::Slice, Con::SliceMut, Con::User]), n, any::<bool>(), asks, through)
        .prop_map(|(ty, con, items, end, asks, through)| {
            let items = if con == Con::Arr { ARRS[items % 9] } else { items };
            Ranges { ty, con, items, end, asks, through }
        })
        .boxed()
}
/// A user's container over memory it was given, relying on the trait's own slice methods.
struct UserMem<T: 'static>(&'static mut [T]);
impl<T: Sc> DataContainer for UserMem<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, i: usize) -> T {
        self.0[i]
    }
    fn get_pointer(&self) -> *const T {
        self.0.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.0.len()
    }
}
impl<T: Sc> DataContainerMut for UserMem<T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
}
/// Every answered request lies inside the container's items.
fn ask<T: Sc>(c: &Ranges, o: &mut Obs, lo: usize, mut get: impl FnMut(usize, usize, bool) -> (usize, usize)) -> Res {
    let (n, sz) = (c.items, std::mem::size_of::<T>());
    let (mut yes, mut no) = (0, 0);
    for (a, b, m) in &c.asks {
        let refs = [1, n, c.through.map_or(0, |t| t.1)];
        let (a, b) = (a.get(n, &refs), b.get(n + 1, &refs));
        if a == b {
            continue;
        }
        let mut out = None;
        if refuses(|| out = Some(get(a, b, *m))) {
            no += 1;
            continue;
        }
        yes += 1;
        let (p, len) = out.unwrap();
        let inside = len == 0 || (p >= lo && (len as u128) * sz as u128 + (p - lo) as u128 <= (n * sz) as u128);
        if !inside {
            return fail_sig("outside", format!("{:?} of {n} items{}: the raw slice from {a} to {b} reaches outside them ({len} items from byte {})",
                c.con, if c.through.is_some() { " under a matrix" } else { "" }, p as i128 - lo as i128));
        }
    }
    if yes > 0 && no > 0 {
        o.hit()
    }
    o.label_if(yes > 0, "some-call-answered");
    o.label_if(no > 0, "some-call-refused");
    Ok(())
}
fn ask_mut<T: Sc, D: DataContainerMut<Item = T>>(c: &Ranges, o: &mut Obs, mut d: D) -> Res {
    let at = |s: &[T]| (s.as_ptr() as usize, s.len());
    match c.through {
        None => {
            let lo = d.get_pointer() as usize;
            ask::<T>(c, o, lo, |a, b, m| if m { at(d.get_slice_mut(a, b)) } else { at(d.get_slice(a, b)) })
        }
        Some((k, st)) => {
            let rows = if c.items == 0 { 0 } else { (1 + (c.items - 1) / st).min(k) };
            let mut m = GenericBaseMatrixMut::<T, ArbitraryStrideColumnVector, D, Dynamic, Fixed1>::from_data(d, ArbitraryStrideColumnVector::new(rows, st));
            let lo = m.get_pointer() as usize;
            ask::<T>(c, o, lo, |a, b, w| if w { at(m.get_slice_mut(a, b)) } else { at(m.get_slice(a, b)) })
        }
    }
}
fn check_ranges(c: &Ranges, o: &mut Obs) -> Res {
    o.label(match c.con {
        Con::Vec => "vector-container",
        Con::Arr => "array-container",
        Con::Slice => "slice-container",
        Con::SliceMut => "mutable-slice-container",
        Con::User => "user-container",
    });
    o.label_if(c.through.is_some(), "under-a-matrix");
    with_ty!(c.ty, T => {
        let mem = Mem::<T>::new(0, c.end, if c.con == Con::Arr || c.con == Con::Vec { 0 } else { c.items }, 0);
        macro_rules! arr {
            ($($n:literal)*) => {
                match c.items {
                    $($n => ask_mut::<T, _>(c, o, ArrayContainer::<T, $n>::new()),)*
                    n => panic!("no array of {n}"),
                }
            };
        }
        match c.con {
            Con::Vec => ask_mut::<T, _>(c, o, VectorContainer::<T>::new(c.items)),
            Con::Arr => arr!(0 1 2 3 5 8 16 33 100),
            Con::SliceMut => ask_mut::<T, _>(c, o, SliceContainerMut::new(mem.slice())),
            Con::User => ask_mut::<T, _>(c, o, UserMem(mem.slice())),
            Con::Slice => {
                let at = |s: &[T]| (s.as_ptr() as usize, s.len());
                let buf: &[T] = mem.slice();
                match c.through {
                    None => {
                        let d = SliceContainer::new(buf);
                        ask::<T>(c, o, buf.as_ptr() as usize, |a, b, _| at(d.get_slice(a, b)))
                    }
                    Some((k, st)) => {
                        let rows = if c.items == 0 { 0 } else { (1 + (c.items - 1) / st).min(k) };
                        let m = SliceMatrix::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>::from_data(SliceContainer::new(buf), ArbitraryStrideColumnVector::new(rows, st));
                        ask::<T>(c, o, buf.as_ptr() as usize, |a, b, _| at(m.get_slice(a, b)))
                    }
                }
            }
        }?;
        mem.intact()
    })
}

// --- products ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mult {
    ty: Ty,
    form: Form,
    a: MSpec,
    b: MSpec,
    c: MSpec,
    end: [bool; 3],
    beta: u8,
    dot: bool,
}
fn mults() -> BoxedStrategy<Mult> {
    let dim = || prop_oneof![12 => 1usize..=9, 2 => Just(0usize), 2 => 10usize..=17, 1 => huge()].boxed();
    (vh::mul::form(), dim(), dim(), dim(), 0u8..16, dim(), dim())
        .prop_flat_map(|(form, mut m, k, mut n, wrong, x, y)| {
            match form {
                Form::MatVec => n = 1,
                Form::VecMat => m = 1,
                _ => {}
            }
            let (mut da, mut db, mut dc) = ((m, k), (k, n), (m, n));
            // mostly compatible
            match wrong {
                0 => da = (x, y),
                1 => db = (x, y),
                2 => dc = (x, y),
                3 => da.1 = x,
                4 => dc.0 = x,
                5 => dc.1 = y,
                _ => {}
            }
            const MATS: &[Kind] = &[Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::SRM, Kind::SCM, Kind::RVD, Kind::CVD];
            const PLAIN: &[Kind] = &DYN_MATS;
            const BV: &[Kind] = &[Kind::CV, Kind::SCV, Kind::RM, Kind::SCM];
            const CV: &[Kind] = &[Kind::CV, Kind::SCV, Kind::CM];
            const AV: &[Kind] = &[Kind::RV, Kind::SRV, Kind::CM, Kind::SRM];
            const CR: &[Kind] = &[Kind::RV, Kind::SRV, Kind::RM];
            let (ka, kb, kc) = match form {
                Form::MatMat => (MATS, MATS, MATS),
                Form::MatVec => (PLAIN, BV, CV),
                Form::VecMat => (AV, PLAIN, CR),
            };
            let one = |k: &'static [Kind], d: (usize, usize)| {
                let fit: &'static [Kind] = if k.len() == 8 && d.0 != 1 && d.1 != 1 { &DYN_MATS } else { k };
                adversarial(fit, Just(d).boxed())
            };
            (ty(), Just(form), one(ka, da), one(kb, db), one(kc, dc), any::<[bool; 3]>(), 0u8..3, 0u8..4)
        })
        .prop_map(|(ty, form, a, b, c, end, beta, dot)| Mult { ty, form, a, b, c, end, beta, dot: dot == 0 && form == Form::MatMat })
        .boxed()
}
fn check_mult(c: &Mult, o: &mut Obs) -> Res {
    with_ty!(c.ty, T => mult::<T>(c, o))
}
fn fits(s: &MSpec) -> bool {
    let (e, n) = truth(s);
    n == 0 || (e <= s.total as u128 && n <= s.total as u128)
}
fn mult<T: Sc>(c: &Mult, o: &mut Obs) -> Res {
    let a = Mem::<T>::new(0, c.end[0], c.a.total, 0);
    let b = Mem::<T>::new(1, c.end[1], c.b.total, 1);
    let r = Mem::<T>::new(2, c.end[2], c.c.total, 2);
    let (a0, b0) = (a.slice().to_vec(), b.slice().to_vec());
    let beta = T::mk([0.0, 1.0, 3.0][c.beta as usize], 0.0);
    let compatible = c.a.cols == c.b.rows && c.c.rows == c.a.rows && c.c.cols == c.b.cols;
    o.label_if(!compatible, "incompatible");
    let all_fit = fits(&c.a) && fits(&c.b) && fits(&c.c);
    o.label_if(!all_fit, "an-operand-does-not-fit");
    let mut ran = false;
    // scaling an empty result by beta walks over its rows: not with an astronomical number of them
    let walk = |r: usize, k: usize| r.min(k) == 0 && r.max(k) > 1 << 20;
    if walk(c.c.rows, c.c.cols) || c.dot && walk(c.a.rows, c.b.cols) {
        o.label("skipped-size");
        return Ok(());
    }
    if c.dot {
        // the result is allocated: only when that is possible
        let (m, n) = (c.a.rows as u128, c.b.cols as u128);
        let wrapped = c.a.rows.wrapping_mul(c.b.cols);
        if wrapped <= 100_000 && (m * n <= 100_000 || m * n >= 1 << 64) {
            let (sa, sb): (&[f64], &[f64]) = (&vec![1.0; c.a.total], &vec![1.0; c.b.total]);
            o.label("dot");
            let no = refuses(|| {
                let (x, y) = (AnyRo::<f64>::new(&c.a, sa), AnyRo::<f64>::new(&c.b, sb));
                let p: MatrixD<f64, RowMajor> = any_ro!(&x, x => any_ro!(&y, y => x.dot(y)));
                let d = p.dim();
                if d.0 > 0 && d.1 > 0 {
                    p.get(d.0 - 1, d.1 - 1);
                }
            });
            ran = !no;
        }
    } else {
        let no = refuses(|| run(c.form, T::mk(1.0, 0.0), &c.a, a.slice(), &c.b, b.slice(), beta, &c.c, r.slice()));
        ran = !no;
    }
    o.label_if(ran, "computed");
    o.label_if(!ran, "refused");
    if (ran && c.c.rows > 0 && c.c.cols > 0) || !all_fit || !compatible {
        o.hit()
    }
    let say = |x: &str| {
        let x = x.to_string();
        move |mut f: Fail| {
            f.msg = format!(
                "{:?} {:?}, operand {x}: {}; A {:?} {}x{} ({},{}) over {}, B {:?} {}x{} ({},{}) over {}, C {:?} {}x{} ({},{}) over {}",
                c.form, c.ty, f.msg, c.a.kind, c.a.rows, c.a.cols, c.a.sr, c.a.sc, c.a.clen, c.b.kind, c.b.rows, c.b.cols, c.b.sr, c.b.sc, c.b.clen,
                c.c.kind, c.c.rows, c.c.cols, c.c.sr, c.c.sc, c.c.clen
            );
            f
        }
    };
    a.intact().map_err(say("A"))?;
    b.intact().map_err(say("B"))?;
    r.intact().map_err(say("C"))?;
    for (now, was, x) in [(a.slice(), a0, "A"), (b.slice(), b0, "B")] {
        if now.iter().zip(&was).any(|(p, q)| !p.same(*q)) {
            return fail_sig("outside", "the product wrote to an operand").map_err(say(x));
        }
    }
    Ok(())
}

// --- allocating constructors -----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Zeros {
    ty: Ty,
    kind: Kind,
    rows: usize,
    cols: usize,
    steps: Vec<Step>,
}
fn zeros() -> BoxedStrategy<Zeros> {
    const KINDS: [Kind; 9] = [Kind::RM, Kind::RM, Kind::CM, Kind::CM, Kind::UT, Kind::RVD, Kind::CVD, Kind::RV, Kind::CV];
    let d = prop_oneof![
        4 => (0usize..=9, 0usize..=9),
        6 => wrapping_pair(),
        2 => (Just(0usize), huge()),
        2 => (huge(), Just(0usize)),
        1 => huge().prop_map(|x| (x, x)),
        1 => (32u32..64, 0usize..3).prop_map(|(b, d)| ((1usize << b).wrapping_sub(d), (1usize << b).wrapping_sub(d))),
        1 => (Just(1usize), huge()),
        1 => (huge(), Just(1usize)),
    ];
    (ty(), prop::sample::select(KINDS.to_vec()), d, any::<bool>(), steps())
        .prop_map(|(ty, kind, (rows, mut cols), sq, steps)| {
            if kind == Kind::UT && sq {
                cols = rows
            }
            Zeros { ty, kind, rows, cols, steps }
        })
        .boxed()
}
fn check_zeros(c: &Zeros, o: &mut Obs) -> Res {
    with_ty!(c.ty, T => zero::<T>(c, o))
}
fn zero<T: Sc>(c: &Zeros, o: &mut Obs) -> Res {
    let (r, k) = (c.rows, c.cols);
    // never ask for memory that cannot be had: that ends the process
    let wide = (r as u128) * (k as u128);
    let tri = (r as u128) * (r as u128 + 1) / 2;
    let ok = |x: u128| x <= 100_000 || x >= 1 << 61;
    let sizes = [wide, wide as u64 as u128, r as u128, k as u128, tri, tri as u64 as u128, r.wrapping_mul(r.wrapping_add(1)) as u128 / 2];
    let needed: &[usize] = match c.kind {
        Kind::RM | Kind::CM => &[0, 1],
        Kind::UT => &[4, 5, 6],
        Kind::RVD | Kind::RV => &[3, 0],
        _ => &[2, 0],
    };
    if !needed.iter().all(|i| ok(sizes[*i])) {
        o.label("skipped-size");
        return Ok(());
    }
    o.label_if(wide >= 1 << 64, "arithmetic-overflows");
    o.label_if(wide == 0, "empty");
    let mut w = World { allowed: vec![T::mk(0.0, 0.0)], mem: None, refs: vec![wide.min(1 << 20) as usize, k, r], salt: 0, done: 0, refused: 0, blocks: false, bad: Ok(()) };
    let mut built = false;
    let mut go = |f: &mut dyn FnMut(&Step, &mut World<T>), w: &mut World<T>| {
        built = true;
        for s in &c.steps {
            f(s, w)
        }
    };
    let no = refuses(|| match c.kind {
        Kind::RM => {
            let mut m = MatrixD::<T, RowMajor>::zeros_from_dim(r, k);
            go(&mut |s, w| w.blk_mut(&mut m, s, true), &mut w)
        }
        Kind::CM => {
            let mut m = MatrixD::<T, ColumnMajor>::zeros_from_dim(r, k);
            go(&mut |s, w| w.blk_mut(&mut m, s, false), &mut w)
        }
        Kind::UT => {
            let mut m = UpperTriangularMatrix::<T>::zeros_from_dim(r, k);
            go(&mut |s, w| if let Step::Eval(..) = s { w.dynamic(&m, s) } else { w.stored(&mut m, s) }, &mut w)
        }
        Kind::RVD => {
            let mut m = MatrixD::<T, RowVector>::zeros_from_dim(r, k);
            go(&mut |s, w| w.stored(&mut m, s), &mut w)
        }
        Kind::CVD => {
            let mut m = MatrixD::<T, ColumnVector>::zeros_from_dim(r, k);
            go(&mut |s, w| w.stored(&mut m, s), &mut w)
        }
        Kind::RV => {
            let mut m = if r == 1 { RowVectorD::<T>::zeros_from_length(k) } else { RowVectorD::<T>::zeros_from_dim(r, k) };
            go(&mut |s, w| w.stored(&mut m, s), &mut w)
        }
        _ => {
            let mut m = if k == 1 { ColumnVectorD::<T>::zeros_from_length(r) } else { ColumnVectorD::<T>::zeros_from_dim(r, k) };
            go(&mut |s, w| w.stored(&mut m, s), &mut w)
        }
    });
    o.label_if(built, "built");
    o.label_if(no, "construction-refused");
    if no && wide >= 1 << 61 {
        o.hit()
    }
    judge(w, o, &format!("{:?} zeros {}x{}", c.kind, r, k))
}

pub fn c19() -> Vec<Sub> {
    vec![
        sub("programs", 60_000, 6_000_000, progs, check_prog),
        sub("ranges", 30_000, 3_000_000, ranges, check_ranges),
        sub("products", 40_000, 4_000_000, mults, check_mult),
        sub("zeros", 25_000, 2_000_000, zeros, check_zeros),
    ]
}
