//! C01 index bijection and C02 raw positions, on the layouts themselves.
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LK {
    RM,
    CM,
    SRM,
    SCM,
    RV,
    CV,
    SRV,
    SCV,
    UT,
}
const LKS: [LK; 9] = [LK::RM, LK::CM, LK::SRM, LK::SCM, LK::RV, LK::CV, LK::SRV, LK::SCV, LK::UT];

/// how the layout is made
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    New,
    FromDimension,
    FromLength,
    IndexLayout,
}

trait Lay {
    fn dim(&self) -> (usize, usize);
    fn n(&self) -> usize;
    fn c12(&self, i: usize) -> (usize, usize);
    fn c21(&self, r: usize, c: usize) -> usize;
    fn r1(&self, i: usize) -> usize;
    fn r2(&self, r: usize, c: usize) -> usize;
    fn stride(&self) -> (usize, usize);
    fn index(&self) -> Box<dyn Lay>;
}
impl<L: LayoutType> Lay for L
where
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    fn dim(&self) -> (usize, usize) {
        LayoutType::dim(self)
    }
    fn n(&self) -> usize {
        self.number_of_elements()
    }
    fn c12(&self, i: usize) -> (usize, usize) {
        self.convert_1d_2d(i)
    }
    fn c21(&self, r: usize, c: usize) -> usize {
        self.convert_2d_1d(r, c)
    }
    fn r1(&self, i: usize) -> usize {
        self.convert_1d_raw(i)
    }
    fn r2(&self, r: usize, c: usize) -> usize {
        self.convert_2d_raw(r, c)
    }
    fn stride(&self) -> (usize, usize) {
        LayoutType::stride(self)
    }
    fn index(&self) -> Box<dyn Lay> {
        Box::new(self.index_layout())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LCase {
    kind: LK,
    via: Via,
    rows: usize,
    cols: usize,
    sr: usize,
    sc: usize,
    /// fractions of the index range to look at
    probes: Vec<u64>,
}

impl LCase {
    fn shape(&self) -> Shape {
        let order = match self.kind {
            LK::RM | LK::SRM | LK::RV | LK::SRV => Order::Row,
            LK::UT => Order::Upper,
            _ => Order::Col,
        };
        Shape { order, rows: self.rows, cols: self.cols }
    }
    fn strides(&self) -> (usize, usize) {
        match self.kind {
            LK::RM => (self.cols, 1),
            LK::CM => (1, self.rows),
            LK::RV | LK::CV => (1, 1),
            LK::SRV => (1, self.sc),
            LK::SCV => (self.sr, 1),
            _ => (self.sr, self.sc),
        }
    }
    fn make(&self) -> Box<dyn Lay> {
        let (d, st) = ((self.rows, self.cols), (self.sr, self.sc));
        match (self.kind, self.via) {
            (LK::RM, Via::FromDimension) => Box::new(RowMajor::from_dimension(d)),
            (LK::CM, Via::FromDimension) => Box::new(ColumnMajor::from_dimension(d)),
            (LK::RV, Via::FromDimension) => Box::new(RowVector::from_dimension(d)),
            (LK::CV, Via::FromDimension) => Box::new(ColumnVector::from_dimension(d)),
            (LK::UT, Via::FromDimension) => Box::new(UpperTriangular::from_dimension(d)),
            (LK::RV, Via::FromLength) => Box::new(RowVector::from_length(d.1)),
            (LK::CV, Via::FromLength) => Box::new(ColumnVector::from_length(d.0)),
            (LK::RM, Via::IndexLayout) => Box::new(ArbitraryStrideRowMajor::new(d, (1, 1)).index_layout()),
            (LK::CM, Via::IndexLayout) => Box::new(ArbitraryStrideColumnMajor::new(d, (1, 1)).index_layout()),
            (LK::RV, Via::IndexLayout) => Box::new(ArbitraryStrideRowVector::new(d.1, 1).index_layout()),
            (LK::CV, Via::IndexLayout) => Box::new(ArbitraryStrideColumnVector::new(d.0, 1).index_layout()),
            (LK::RM, _) => Box::new(RowMajor::new(d)),
            (LK::CM, _) => Box::new(ColumnMajor::new(d)),
            (LK::SRM, _) => Box::new(ArbitraryStrideRowMajor::new(d, st)),
            (LK::SCM, _) => Box::new(ArbitraryStrideColumnMajor::new(d, st)),
            (LK::RV, _) => Box::new(RowVector::new(d.1)),
            (LK::CV, _) => Box::new(ColumnVector::new(d.0)),
            (LK::SRV, _) => Box::new(ArbitraryStrideRowVector::new(d.1, st.1)),
            (LK::SCV, _) => Box::new(ArbitraryStrideColumnVector::new(d.0, st.0)),
            (LK::UT, _) => Box::new(UpperTriangular::new(d.0)),
        }
    }
    fn label(&self, o: &mut Obs) {
        let n = self.shape().n();
        o.label_if(n == 0, "empty");
        o.label_if(n > 1 << 20, "huge");
        o.label_if(n > 1 << 53, "beyond-2^53");
        o.label_if(n > 0 && n <= 4000, "exhaustive");
        o.label(match self.kind {
            LK::RM => "row-major",
            LK::CM => "column-major",
            LK::SRM => "strided-row",
            LK::SCM => "strided-col",
            LK::UT => "upper-triangular",
            _ => "vector",
        });
        if n > 1 {
            o.hit()
        }
    }
    /// linear indices to look at
    fn indices(&self) -> Vec<usize> {
        let sh = self.shape();
        let n = sh.n();
        if n <= 4000 {
            return (0..n).collect();
        }
        let mut v = vec![0, 1, 2, n - 1, n - 2, n / 2];
        for p in &self.probes {
            let i = ((n as u128 * *p as u128) >> 64) as usize;
            v.push(i);
            // the ends of the line that holds i
            let (r, c) = sh.at(i);
            let ends = match sh.order {
                Order::Row => [(r, 0), (r, sh.cols - 1)],
                Order::Col => [(0, c), (sh.rows - 1, c)],
                Order::Upper => [(r, r), (r, sh.cols - 1)],
            };
            for (a, b) in ends {
                let j = sh.idx(a, b);
                v.push(j);
                v.push(j.saturating_sub(1));
                v.push((j + 1).min(n - 1));
            }
        }
        v
    }
}

fn big() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => 1usize..=70000,
        2 => (0u32..=62, -2i64..=2).prop_map(|(b, d)| ((1i64 << b) + d).max(1) as usize),
        1 => (0u32..=62, any::<u64>()).prop_map(|(b, x)| (((1u64 << b) | (x & ((1 << b) - 1))) as usize).max(1)),
    ]
    .boxed()
}

/// `smax`: largest position a strided layout may reach
fn lcase() -> BoxedStrategy<LCase> {
    let d = prop_oneof![
        5 => (0usize..=9, 0usize..=9),
        3 => (1usize..=70, 1usize..=70),
        2 => dims(),
        5 => (big(), big()),
        2 => (big(), 1usize..=3),
        2 => (1usize..=3, big()),
    ];
    let st = prop_oneof![3 => (0usize..=6, 0usize..=6), 1 => (big(), big()), 1 => (0usize..=3, big()), 1 => (big(), 0usize..=3)];
    (
        prop::sample::select(LKS.to_vec()),
        prop::sample::select(vec![Via::New, Via::FromDimension, Via::FromLength, Via::IndexLayout]),
        d,
        st,
        prop::collection::vec(any::<u64>(), 1..=24),
    )
        .prop_map(|(kind, via, (mut rows, mut cols), (mut sr, mut sc), probes)| {
            match kind {
                LK::RV | LK::SRV => rows = 1,
                LK::CV | LK::SCV => cols = 1,
                LK::UT => {
                    rows = rows.min((1 << 32) - 2);
                    cols = rows
                }
                _ => {
                    // representable element count
                    while rows.checked_mul(cols).is_none_or(|n| n > isize::MAX as usize) {
                        if rows > cols {
                            rows /= 2
                        } else {
                            cols /= 2
                        }
                    }
                }
            }
            // representable positions
            let ext = |r: usize, c: usize, sr: usize, sc: usize| -> bool {
                let e = r.saturating_sub(1) as u128 * sr as u128 + c.saturating_sub(1) as u128 * sc as u128;
                e < isize::MAX as u128
            };
            while !ext(rows, cols, sr, sc) {
                if sr > sc {
                    sr /= 2
                } else {
                    sc /= 2
                }
            }
            LCase { kind, via, rows, cols, sr, sc, probes }
        })
        .boxed()
}

fn check_index(c: &LCase, o: &mut Obs) -> Res {
    c.label(o);
    let l = c.make();
    let il = l.index();
    let sh = c.shape();
    let what = format!("{:?}/{:?} {}x{}", c.kind, c.via, c.rows, c.cols);
    for (l, nm) in [(&l, "layout"), (&il, "index layout")] {
        ensure!(l.dim() == (c.rows, c.cols), "{what}: {nm} dim {:?}", l.dim());
        ensure!(l.n() == sh.n(), "{what}: {nm} has {} elements, should be {}", l.n(), sh.n());
        for &i in &c.indices() {
            let want = sh.at(i);
            let got = l.c12(i);
            ensure!(got == want, "{what}: {nm}: linear index {i} gives {got:?}, should be {want:?}");
            let back = l.c21(want.0, want.1);
            ensure!(back == i, "{what}: {nm}: pair {want:?} gives linear index {back}, should be {i}");
        }
    }
    // the two numberings compose to the identity starting from pairs, too
    if sh.n() > 0 {
        for w in c.probes.chunks(2) {
            let r = ((sh.rows as u128 * w[0] as u128) >> 64) as usize;
            let mut k = ((sh.cols as u128 * w[w.len() - 1] as u128) >> 64) as usize;
            if sh.order == Order::Upper {
                k = k.max(r)
            }
            let i = l.c21(r, k);
            ensure!(i < sh.n() && i == sh.idx(r, k), "{what}: pair ({r},{k}) gives {i}, should be {}", sh.idx(r, k));
            ensure!(l.c12(i) == (r, k), "{what}: pair ({r},{k}) -> {i} -> {:?}", l.c12(i));
        }
    }
    Ok(())
}

fn check_raw(c: &LCase, o: &mut Obs) -> Res {
    c.label(o);
    let l = c.make();
    let sh = c.shape();
    let st = c.strides();
    let what = format!("{:?}/{:?} {}x{} stride {:?}", c.kind, c.via, c.rows, c.cols, st);
    let dense = matches!(c.kind, LK::RM | LK::CM | LK::RV | LK::CV | LK::UT);
    o.label_if(!dense, "strided");
    let pos = |r: usize, k: usize| if c.kind == LK::UT { sh.idx(r, k) } else { st.0 * r + st.1 * k };
    let vec_like = matches!(c.kind, LK::RV | LK::CV | LK::SRV | LK::SCV);
    if c.kind != LK::UT {
        let got = l.stride();
        ensure!(got.0 == st.0 || (vec_like && c.rows == 1), "{what}: reports row stride {}", got.0);
        ensure!(got.1 == st.1 || (vec_like && c.cols == 1), "{what}: reports column stride {}", got.1);
    }
    for &i in &c.indices() {
        let (r, k) = sh.at(i);
        let want = pos(r, k);
        let (a, b) = (l.r1(i), l.r2(r, k));
        ensure!(b == want, "{what}: element ({r},{k}) at raw position {b}, should be {want}");
        ensure!(a == want, "{what}: linear index {i} (element ({r},{k})) at raw position {a}, should be {want}");
        if i == 0 {
            ensure!(a == 0, "{what}: first element at raw position {a}");
        }
        if dense {
            ensure!(a == i, "{what}: dense layout puts linear index {i} at {a}");
        }
        if c.kind != LK::UT {
            let rep = l.stride();
            if r + 1 < sh.rows {
                let d = l.r2(r + 1, k).wrapping_sub(b);
                ensure!(d == rep.0, "{what}: rows are {d} apart but row stride is {}", rep.0);
            }
            if k + 1 < sh.cols {
                let d = l.r2(r, k + 1).wrapping_sub(b);
                ensure!(d == rep.1, "{what}: columns are {d} apart but column stride is {}", rep.1);
            }
        }
    }
    // no two elements of a dense layout at one position
    if dense && sh.n() <= 4000 {
        let mut seen = vec![false; sh.n()];
        for r in 0..sh.rows {
            for k in 0..sh.cols {
                if sh.valid(r, k) {
                    let p = l.r2(r, k);
                    ensure!(p < sh.n() && !seen[p], "{what}: element ({r},{k}) at position {p}: outside or already used");
                    seen[p] = true;
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    ty: Ty,
    spec: MSpec,
}
fn memcase() -> BoxedStrategy<MemCase> {
    (ty(), spec_kinds(&ALL_KINDS, dims(), NONEMPTY)).prop_map(|(ty, spec)| MemCase { ty, spec }).boxed()
}

/// The same relations for the layouts matrices carry (blocks and from_pointer matrices included), against real addresses.
fn check_mem(c: &MemCase, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    if c.spec.n() > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => mem::<T>(&c.spec))
}
fn mem<T: Sc>(s: &MSpec) -> Res {
    let mut buf = fill_vec::<T>(Fill::Index, 0, s.total);
    let mut res = Ok(());
    with_stored::<T>(s, &mut buf, &mut |m| res = mem1(s, m));
    res?;
    let mut res = Ok(());
    if !matches!(s.kind, Kind::FR | Kind::FC | Kind::FRV | Kind::FCV) {
        with_ro::<T>(s, &buf, &mut |m| {
            res = (|| {
                let st = stride_of::<T, _>(m, s);
                ensure!(st == s.reported_stride(), "{} (read-only): reports stride {:?}", s.describe(), st);
                Ok(())
            })()
        });
    }
    res
}
/// reported stride with the meaningless component of a vector masked
fn stride_of<T: Sc, V: View<T> + ?Sized>(m: &V, s: &MSpec) -> Option<(usize, usize)> {
    let want = s.reported_stride()?;
    let mut st = m.stride();
    if s.is_vec() || matches!(s.kind, Kind::RVD | Kind::CVD) {
        if s.rows == 1 {
            st.0 = want.0
        }
        if s.cols == 1 {
            st.1 = want.1
        }
    }
    Some(st)
}
fn mem1<T: Sc>(s: &MSpec, m: &mut dyn Stored<T>) -> Res {
    let st = stride_of::<T, _>(m, s);
    ensure!(st == s.reported_stride(), "{}: reports stride {:?}", s.describe(), st);
    let base = m.ptr() as usize;
    let sh = s.shape();
    let sz = std::mem::size_of::<T>();
    let first = sh.at(0);
    ensure!(m.at_mut(first.0, first.1) as *const T as usize == base, "{}: first element is not at the start of the memory", s.describe());
    let step = (sh.n() / 600).max(1);
    for i in (0..sh.n()).step_by(step).chain([sh.n() - 1]) {
        let (r, k) = sh.at(i);
        let want = base + s.raw(r, k) * sz;
        let a = m.at_mut(r, k) as *const T as usize;
        let b = m.at1_mut(i) as *const T as usize;
        ensure!(a == want, "{}: element ({r},{k}) lies {} items from the start, should be {}", s.describe(), (a as isize - base as isize) / sz as isize, s.raw(r, k));
        ensure!(b == want, "{}: linear index {i} lies {} items from the start, should be {}", s.describe(), (b as isize - base as isize) / sz as isize, s.raw(r, k));
    }
    Ok(())
}

pub fn c01() -> Vec<Sub> {
    vec![sub("index_bijection", 300_000, 2_000_000, lcase, check_index)]
}
pub fn c02() -> Vec<Sub> {
    vec![sub("raw_positions", 300_000, 1_500_000, lcase, check_raw), sub("real_addresses", 150_000, 600_000, memcase, check_mem)]
}
