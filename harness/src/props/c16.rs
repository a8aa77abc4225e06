//! C16: matrices over existing memory.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

// --- every element is at its place, nothing else is touched --------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    /// elements to write and how
    writes: Vec<(u32, u8)>,
}
fn places() -> BoxedStrategy<Place> {
    gen_places(dims())
}
fn places_big() -> BoxedStrategy<Place> {
    gen_places(big_dims())
}
fn places_huge() -> BoxedStrategy<Place> {
    gen_places(huge_dims())
}
fn gen_places(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Place> {
    (ty(), spec_kinds(&ALL_KINDS, d, ANY), fill(), prop::collection::vec((any::<u32>(), 0u8..6), 0..8))
        .prop_map(|(ty, mut s, fill, writes)| {
            // caller memory, mostly
            if s.store == Store::Own && !matches!(s.kind, Kind::FR | Kind::FC | Kind::FRV | Kind::FCV) {
                s.store = Store::Slice;
            }
            Place { ty, s, fill, writes }
        })
        .boxed()
}
fn check_place(c: &Place, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    if c.s.n() > 1 {
        o.hit()
    }
    o.label_if(c.s.off > 0 || c.s.total > c.s.off + c.s.clen, "part-of-larger-memory");
    with_ty!(c.ty, T => place::<T>(c))
}
fn place<T: Sc>(c: &Place) -> Res {
    let mut model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let base = buf.as_ptr() as usize;
    let direct = matches!(c.s.store, Store::Slice | Store::Ptr | Store::Block);
    let sh = c.s.shape();
    let n = sh.n();
    let mut res = Ok(());
    let what = c.s.describe();
    with_stored(&c.s, &mut buf, &mut |m| {
        res = (|| {
            model.check_view(m, n <= 300)?;
            let first = m.ptr() as usize;
            if direct && n > 0 {
                ensure!(first == base + c.s.off * std::mem::size_of::<T>(), "{what}: the pointer is not the address of the first item");
            }
            for i in 0..n {
                let (r, k) = sh.at(i);
                let want = first + c.s.raw(r, k) * std::mem::size_of::<T>();
                let (x, y) = (m.at_mut(r, k) as *mut T as usize, m.at1_mut(i) as *mut T as usize);
                ensure!(
                    x == want && y == want,
                    "{what}: element ({r},{k}) lies {} (by pair) or {} (by linear index) bytes from the start, should be {}",
                    x as i128 - first as i128, y as i128 - first as i128, want - first
                );
            }
            if n > 0 {
                for (w, (at, how)) in c.writes.iter().enumerate() {
                    let i = *at as usize % n;
                    let (r, k) = sh.at(i);
                    let v: T = elem(c.fill, 3, w);
                    match how {
                        0 => *m.at_mut(r, k) = v,
                        1 => *m.at1_mut(i) = v,
                        2 => unsafe { *m.atu_mut(r, k) = v },
                        3 => unsafe { *m.atu1_mut(i) = v },
                        4 => m.slice_mut(0, c.s.clen)[c.s.raw(r, k)] = v,
                        _ => unsafe { *m.ptr_mut().add(c.s.raw(r, k)) = v },
                    }
                    model.set(r, k, v);
                }
                model.check_view(m, n <= 300)?;
            }
            if c.s.store != Store::Own {
                // the items behind the matrix's own are not its memory
                ensure!(c.s.clen == 0 || m.slice(0, c.s.clen).len() == c.s.clen, "{what}: the raw slice 0..{} has another length", c.s.clen);
                let (f, l) = beyond(&c.s, c.writes.len());
                ensure!(refuses(|| m.slice(f, l).len()), "{what}: get_slice({f}, {l}) of its {} items was accepted", c.s.clen);
                ensure!(refuses(|| m.slice_mut(f, l).len()), "{what}: get_slice_mut({f}, {l}) of its {} items was accepted", c.s.clen);
            }
            Ok(())
        })()
    });
    res?;
    model.check_buf(&buf)
}

/// A range ending behind the matrix's memory, by one item or more.
fn beyond(s: &MSpec, k: usize) -> (usize, usize) {
    let l = s.clen + 1 + [0, 0, 1, 3, s.sc, s.sr, s.clen, usize::MAX / 2][k % 8];
    ([0, s.clen, s.clen / 2][k % 3], l)
}

// --- read-only matrices ----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoPlace {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    #[serde(default)]
    beyond: u8,
}
fn ro_places() -> BoxedStrategy<RoPlace> {
    (ty(), spec_kinds(&RO_KINDS, dims(), ANY), fill(), 0u8..24).prop_map(|(ty, s, fill, beyond)| RoPlace { ty, s, fill, beyond }).boxed()
}
fn check_ro_place(c: &RoPlace, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    if c.s.n() > 1 {
        o.hit()
    }
    o.label_if(c.s.off > 0 || c.s.total > c.s.off + c.s.clen, "part-of-larger-memory");
    with_ty!(c.ty, T => {
        let model = Model::<T>::new(&c.s, c.fill, 0);
        let buf = model.buf.clone();
        let what = format!("read-only {}", c.s.describe());
        let mut res = Ok(());
        with_ro::<T>(&c.s, &buf, &mut |m| {
            res = (|| {
                model.check_view(m, c.s.n() <= 300)?;
                if c.s.n() > 0 {
                    ensure!(m.ptr() == unsafe { buf.as_ptr().add(c.s.off) }, "{what}: the pointer is not the address of the first item");
                    // other contents: the matrix shows the caller's memory, not a copy
                    let sl = m.slice(0, c.s.extent());
                    ensure!(sl.as_ptr() == m.ptr() && sl.len() == c.s.extent(), "{what}: the raw slice is not the caller's memory");
                }
                let (f, l) = beyond(&c.s, c.beyond as usize);
                ensure!(refuses(|| m.slice(f, l).len()), "{what}: get_slice({f}, {l}) of its {} items was accepted", c.s.clen);
                Ok(())
            })()
        });
        res?;
        model.check_buf(&buf)
    })
}

// --- what is accepted --------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Con {
    /// claims a number of items without holding any (dynamic matrices are still read: the accesses are logged)
    Claim,
    Vec,
    Slice,
    SliceMut,
    Arr0,
    Arr1,
    Arr5,
    Arr64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cap {
    kind: Kind,
    con: Con,
    rows: usize,
    cols: usize,
    sr: usize,
    sc: usize,
    items: usize,
    picks: [u64; 4],
}

struct Claim {
    items: usize,
    last: Cell<usize>,
    one: f64,
}
impl DataContainer for Claim {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 {
        self.last.set(index);
        self.one
    }
    fn get_pointer(&self) -> *const f64 {
        &self.one
    }
    fn number_of_elements(&self) -> usize {
        self.items
    }
}

impl Cap {
    fn rc(&self) -> (u128, u128) {
        (self.rows as u128, self.cols as u128)
    }
    fn count(&self) -> u128 {
        let (r, c) = self.rc();
        match self.kind {
            Kind::UT => r * (r + 1) / 2,
            _ => r * c,
        }
    }
    /// one past the last position (as if arithmetic were unbounded)
    fn extent(&self) -> u128 {
        let (r, c) = self.rc();
        if self.count() == 0 {
            return 0;
        }
        match self.kind {
            Kind::UT => self.count(),
            Kind::SRM | Kind::SCM => (r - 1).saturating_mul(self.sr as u128).saturating_add((c - 1).saturating_mul(self.sc as u128)).saturating_add(1),
            Kind::SRV => (c - 1).saturating_mul(self.sc as u128).saturating_add(1),
            Kind::SCV => (r - 1).saturating_mul(self.sr as u128).saturating_add(1),
            _ => self.count(),
        }
    }
    fn position(&self, r: usize, c: usize) -> u128 {
        let (r, c, rows, cols) = (r as u128, c as u128, self.rows as u128, self.cols as u128);
        match self.kind {
            Kind::UT => {
                let below = rows - r - 1;
                below * (below + 1) / 2 + (c - r)
            }
            Kind::RM => r * cols + c,
            Kind::CM => c * rows + r,
            Kind::RVD | Kind::RV => c,
            Kind::CVD | Kind::CV => r,
            _ => r * self.sr as u128 + c * self.sc as u128,
        }
    }
}

fn caps() -> BoxedStrategy<Cap> {
    let near = |b: u32| (0u64..=2).prop_map(move |d| ((1u128 << b) as u64).wrapping_add(d).wrapping_sub(1) as usize).boxed();
    let dim = move || {
        prop_oneof![
            8 => 1usize..=6,
            2 => 0usize..=3,
            2 => 7usize..=40,
            2 => (1u32..64).prop_flat_map(near),
            1 => Just(usize::MAX),
            1 => any::<usize>(),
            1 => Just(1usize << 32),
        ]
    };
    let stride = move || {
        prop_oneof![
            8 => 0usize..=9,
            3 => 1usize..=50,
            2 => (1u32..64).prop_flat_map(near),
            1 => Just(usize::MAX),
            1 => Just(1usize << 63),
            1 => any::<usize>(),
        ]
    };
    use Kind::*;
    let kinds = vec![RM, CM, SRM, SCM, SRM, SCM, UT, RVD, CVD, RV, CV, SRV, SCV];
    let cons = vec![Con::Claim, Con::Claim, Con::Claim, Con::Vec, Con::Slice, Con::SliceMut, Con::Arr0, Con::Arr1, Con::Arr5, Con::Arr64];
    (prop::sample::select(kinds), prop::sample::select(cons), dim(), dim(), stride(), stride(), 0u8..9, any::<usize>(), any::<[u64; 4]>())
        .prop_map(|(kind, con, mut rows, mut cols, sr, sc, how, other, picks)| {
            match kind {
                UT => cols = rows,
                RVD | RV | SRV => rows = 1,
                CVD | CV | SCV => cols = 1,
                _ => {}
            }
            let mut c = Cap { kind, con, rows, cols, sr, sc, items: 0, picks };
            // a container around the critical sizes
            let crit = [c.count(), c.extent()][other % 2].min(usize::MAX as u128) as usize;
            let top = c.count().max(c.extent()).min(usize::MAX as u128) as usize;
            c.items = match how {
                0 => crit,
                1 => crit.saturating_sub(1),
                2 => crit.saturating_add(1),
                3 => top,
                4 => top.saturating_sub(1),
                5 => usize::MAX,
                6 => other % 70,
                7 => crit / 2,
                // what wrapping arithmetic would compute
                _ => (c.rows.wrapping_mul(c.cols)).max(c.rows.wrapping_sub(1).wrapping_mul(c.sr).wrapping_add(c.cols.wrapping_sub(1).wrapping_mul(c.sc)).wrapping_add(1)),
            };
            match c.con {
                Con::Claim => {}
                Con::Arr0 => c.items = 0,
                Con::Arr1 => c.items = 1,
                Con::Arr5 => c.items = 5,
                Con::Arr64 => c.items = 64,
                _ => {
                    if c.items > 4000 {
                        c.items %= 4000
                    }
                }
            }
            c
        })
        .boxed()
}

fn check_cap(c: &Cap, o: &mut Obs) -> Res {
    let (count, extent, items) = (c.count(), c.extent(), c.items as u128);
    let (r, k) = c.rc();
    let too_big = r * k > usize::MAX as u128 || count > usize::MAX as u128 || extent > usize::MAX as u128;
    let accept = if too_big || extent > items {
        Some(false)
    } else if count <= items {
        Some(true)
    } else {
        None // elements share positions: more elements than items, all inside -- not specified
    };
    match accept {
        Some(true) => o.label("must-be-accepted"),
        Some(false) => o.label("must-be-refused"),
        None => o.label("unspecified"),
    }
    o.label_if(too_big, "not-representable");
    o.label_if(extent > items && count <= items, "enough-items-but-out-of-reach");
    o.label_if(count == 0, "empty");
    o.label_if(!too_big && count > 1 << 32, "huge");
    let Some(accept) = accept else { return Ok(()) };
    o.hit();
    macro_rules! go {
        ($L:ident, $l:expr, $RS:ty, $CS:ty) => {
            match c.con {
                Con::Claim => judge::<$L, Claim, $RS, $CS>(c, accept, || (Claim { items: c.items, last: Cell::new(usize::MAX), one: 1.0 }, $l), &|m, want| {
                    let d = m.1.last.get();
                    ensure!(d as u128 == want, "reads container position {d}, should be {want}");
                    Ok(())
                }),
                Con::Vec => judge::<$L, VectorContainer<f64>, $RS, $CS>(c, accept, || (VectorContainer::new(c.items), $l), &|_, _| Ok(())),
                Con::Slice => {
                    let v = vec![1.0; c.items];
                    judge::<$L, SliceContainer<f64>, $RS, $CS>(c, accept, || (SliceContainer::new(&v), $l), &|_, _| Ok(()))
                }
                Con::SliceMut => {
                    let mut v = vec![1.0; c.items];
                    judge::<$L, SliceContainerMut<f64>, $RS, $CS>(c, accept, || (SliceContainerMut::new(&mut v), $l), &|_, _| Ok(()))
                }
                Con::Arr0 => judge::<$L, ArrayContainer<f64, 0>, $RS, $CS>(c, accept, || (ArrayContainer::new(), $l), &|_, _| Ok(())),
                Con::Arr1 => judge::<$L, ArrayContainer<f64, 1>, $RS, $CS>(c, accept, || (ArrayContainer::new(), $l), &|_, _| Ok(())),
                Con::Arr5 => judge::<$L, ArrayContainer<f64, 5>, $RS, $CS>(c, accept, || (ArrayContainer::new(), $l), &|_, _| Ok(())),
                Con::Arr64 => judge::<$L, ArrayContainer<f64, 64>, $RS, $CS>(c, accept, || (ArrayContainer::new(), $l), &|_, _| Ok(())),
            }
        };
    }
    type D = Dynamic;
    type F = Fixed1;
    let (d, s) = ((c.rows, c.cols), (c.sr, c.sc));
    match c.kind {
        Kind::RM => go!(RowMajor, RowMajor::new(d), D, D),
        Kind::CM => go!(ColumnMajor, ColumnMajor::new(d), D, D),
        Kind::SRM => go!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(d, s), D, D),
        Kind::SCM => go!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(d, s), D, D),
        Kind::UT => go!(UpperTriangular, UpperTriangular::new(c.rows), D, D),
        Kind::RVD => go!(RowVector, RowVector::new(c.cols), D, D),
        Kind::CVD => go!(ColumnVector, ColumnVector::new(c.rows), D, D),
        Kind::RV => go!(RowVector, RowVector::new(c.cols), F, D),
        Kind::CV => go!(ColumnVector, ColumnVector::new(c.rows), D, F),
        Kind::SRV => go!(ArbitraryStrideRowVector, ArbitraryStrideRowVector::new(c.cols, c.sc), F, D),
        _ => go!(ArbitraryStrideColumnVector, ArbitraryStrideColumnVector::new(c.rows, c.sr), D, F),
    }
}

/// A matrix that was just read at one element; `.1` is its container when it only claims to hold items.
struct Read<'a>((), &'a Claim);

fn judge<L: LayoutType, Da: DataContainer<Item = f64>, RS: SizeIdentifier, CS: SizeIdentifier>(
    c: &Cap,
    accept: bool,
    make: impl FnOnce() -> (Da, L),
    last: &dyn Fn(Read, u128) -> Res,
) -> Res {
    let mut m = None;
    let refused = refuses(|| {
        let (d, l) = make();
        m = Some(GenericBaseMatrix::<f64, L, Da, RS, CS>::from_data(d, l));
    });
    let what = format!("{:?} {}x{} stride ({},{}) over {:?} of {} items", c.kind, c.rows, c.cols, c.sr, c.sc, c.con, c.items);
    ensure!(refused != accept, "{what}: was {}, but its {} elements span {} positions", if refused { "refused" } else { "accepted" }, c.count(), c.extent());
    let Some(m) = m else { return Ok(()) };
    ensure!(m.dim() == (c.rows, c.cols), "{what}: dimension {:?}", m.dim());
    ensure!(m.layout().number_of_elements() as u128 == c.count(), "{what}: {} elements, should be {}", m.layout().number_of_elements(), c.count());
    if c.count() == 0 {
        return Ok(());
    }
    let mut at: Vec<(usize, usize)> = vec![(0, 0), (c.rows - 1, c.cols - 1), (0, c.cols - 1)];
    if c.kind != Kind::UT {
        at.push((c.rows - 1, 0));
    }
    for p in c.picks {
        let (r, k) = (mix(p, 1) as usize % c.rows, mix(p, 2) as usize % c.cols);
        at.push(if c.kind == Kind::UT && k < r { (k, r) } else { (r, k) });
    }
    for (r, k) in at {
        let pos = c.position(r, k);
        let by = |how: &str, v: f64| -> Res {
            let want = if c.con == Con::Vec || matches!(c.con, Con::Arr1 | Con::Arr5 | Con::Arr64) { 0.0 } else { 1.0 };
            ensure!(v == want, "{what}: {how} of element ({r},{k}) is {v}");
            if c.con == Con::Claim {
                // the address of the container inside the matrix: get_pointer points into it
                let p = m.get_pointer() as *const u8;
                let claim = unsafe { &*(p.sub(std::mem::offset_of!(Claim, one)) as *const Claim) };
                last(Read((), claim), pos).map_err(|mut f| {
                    f.msg = format!("{what}: {how} of element ({r},{k}) {}", f.msg);
                    f
                })?;
            }
            Ok(())
        };
        by("get", m.get(r, k))?;
        by("get_unchecked", unsafe { m.get_unchecked(r, k) })?;
        let i = m.layout().convert_2d_1d(r, k);
        by("get1d", m.get1d(i))?;
    }
    Ok(())
}

pub fn c16() -> Vec<Sub> {
    vec![
        sub("placement", 80_000, 1_500_000, places, check_place),
        sub("placement_large", 600, 4_000, places_big, check_place),
        sub("placement_huge", 8, 300, places_huge, check_place),
        sub("read_only_placement", 60_000, 1_000_000, ro_places, check_ro_place),
        sub("capacity", 240_000, 5_000_000, caps, check_cap),
    ]
}
