//! C08: sums.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::mul::{near_gen, near_join, near_models, near_offsets, Form};
use vh::scal::*;
use vh::with_ty;

type P = (usize, usize);
type Base<T, D, L, RS, CS> = GenericBaseMatrix<T, L, D, RS, CS>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    a: MSpec,
    b: MSpec,
    fa: Fill,
    fb: Fill,
    /// ownership form: operand by reference?
    refs: (bool, bool),
    /// operand held by an owning container (otherwise a slice)
    own: (bool, bool),
    /// both operands in one buffer, the second's first element this far from the first's
    #[serde(default)]
    near: Option<i64>,
    poke: u32,
}

/// The kinds that share an index order (and size type).
const FAMILIES: [&[Kind]; 9] = [
    &[Kind::RM, Kind::SRM],
    &[Kind::RM, Kind::SRM],
    &[Kind::CM, Kind::SCM],
    &[Kind::CM, Kind::SCM],
    &[Kind::UT],
    &[Kind::RV, Kind::SRV],
    &[Kind::CV, Kind::SCV],
    &[Kind::RVD],
    &[Kind::CVD],
];

fn family() -> BoxedStrategy<(Kind, Kind)> {
    prop::sample::select(FAMILIES.to_vec()).prop_flat_map(|f| (prop::sample::select(f.to_vec()), prop::sample::select(f.to_vec()))).boxed()
}

fn gen(d: BoxedStrategy<P>) -> BoxedStrategy<Case> {
    (family(), d)
        .prop_flat_map(|((ka, kb), d)| {
            (ty(), spec_for(ka, d, ANY), spec_for(kb, d, ANY), fill(), fill(), any::<(bool, bool)>(), any::<(bool, bool)>(), (0u8..5, near_gen()), any::<u32>())
        })
        .prop_map(|(ty, a, mut b, fa, fb, refs, own, (one, ng), poke)| {
            let near = (one == 0).then(|| {
                // (a form that leaves b's own strides alone)
                if ng.twin() && b.kind == a.kind {
                    b = a.clone()
                }
                ng.place(Form::MatVec, &a, &mut b).delta
            });
            let own = if near.is_some() { (false, false) } else { own };
            Case { ty, a, b, fa, fb, refs, own, near, poke }
        })
        .boxed()
}
fn cases() -> BoxedStrategy<Case> {
    gen(prop_oneof![2 => small_dims(), 1 => dims()].boxed())
}
fn big_cases() -> BoxedStrategy<Case> {
    gen(big_dims())
}
fn huge_cases() -> BoxedStrategy<Case> {
    gen(huge_dims_lite())
}
/// operands of different dimension: one more or less, swapped, same element count, empty ones
fn bad_cases() -> BoxedStrategy<Case> {
    let dd = prop_oneof![
        3 => ((1usize..=6, 1usize..=6), -2i32..=2, -2i32..=2).prop_map(|(d, x, y)| (d, ((d.0 as i32 + x).max(0) as usize, (d.1 as i32 + y).max(0) as usize))),
        2 => (0usize..=6, 0usize..=6).prop_map(|(a, b)| ((a, b), (b, a))),
        1 => (1usize..=4, 1usize..=4, 2usize..=3).prop_map(|(a, b, f)| ((a * f, b), (a, b * f))),
        1 => (1usize..=5, 0usize..=5).prop_map(|(a, b)| ((a, b), (a + 1, b))),
        1 => (0usize..=5, 0usize..=5, 0usize..=5).prop_map(|(a, b, _)| ((0, a), (0, b))),
        1 => (0usize..=5, 0usize..=5).prop_map(|(a, b)| ((a, 0), (b, 0))),
        1 => ((0usize..=40, 0usize..=40), (0usize..=40, 0usize..=40)),
        // equal in the low bits
        1 => (0usize..=3, 0usize..=3, 0u32..150, 1u8..4).prop_map(|(a, b, far, m)| {
            let d = if far == 0 { 65536 } else { 256 << (far % 3) };
            let (x, y) = if m == 3 && far == 0 { (d, 0) } else { (d * (m & 1) as usize, d * (m >> 1) as usize) };
            let e = ((a + x).min(66_000), if x > 0 { (b + y).min(1030) } else { b + y });
            if d > 1000 && (e.0 > 3 && e.1 > 3) { ((a, b), (a + d, b.min(3))) } else { ((a, b), e) }
        }),
    ];
    (family(), dd)
        .prop_flat_map(|((ka, kb), (d1, d2))| (ty(), spec_for(ka, d1, ANY), spec_for(kb, d2, ANY), any::<(bool, bool)>(), any::<(bool, bool)>()))
        .prop_map(|(ty, a, b, refs, own)| Case { ty, a, b, fa: Fill::Index, fb: Fill::Index, refs, own, near: None, poke: 0 })
        .boxed()
}

fn check(c: &Case, o: &mut Obs) -> Res {
    label_spec(&c.a, o);
    o.label_if(c.a.kind != c.b.kind, "different-storage");
    o.label_if(c.near.is_some(), "operands-in-one-buffer");
    o.label_if(c.near == Some(0), "operands-start-at-the-same-item");
    o.label(match c.refs {
        (true, true) => "ref+ref",
        (true, false) => "ref+value",
        (false, true) => "value+ref",
        _ => "value+value",
    });
    let same = (c.a.rows, c.a.cols) == (c.b.rows, c.b.cols);
    o.label(if same { "same-dimension" } else { "different-dimension" });
    o.label_if(!same && c.a.rows % 256 == c.b.rows % 256 && c.a.cols % 256 == c.b.cols % 256, "different-dimension-equal-in-the-low-bits");
    o.label_if(!same && c.a.n() == c.b.n(), "different-dimension-same-count");
    if !same || c.a.n() > 0 {
        o.hit()
    }
    with_ty!(c.ty, T => run::<T>(c))
}

struct Env<'a, T: Sc> {
    c: &'a Case,
    a: &'a Model<T>,
    b: &'a Model<T>,
}
impl<'a, T: Sc> Env<'a, T> {
    fn what(&self) -> String {
        format!("{} + {} (refs {:?})", self.c.a.describe(), self.c.b.describe(), self.c.refs)
    }
    fn sum(&self, r: usize, k: usize) -> T {
        self.a.at(r, k).radd(self.b.at(r, k))
    }
    fn view(&self, v: &dyn View<T>) -> Res {
        let sh = self.c.a.shape();
        check_view(v, sh, &self.what(), sh.n() <= 2000, &|r, k| self.sum(r, k))
    }
    fn evaluated(&self, mut e: Box<dyn Stored<T>>) -> Res {
        let sh = self.c.a.shape();
        check_view(&*e, sh, &format!("evaluated {}", self.what()), false, &|r, k| self.sum(r, k))?;
        if sh.n() > 0 {
            let i = self.c.poke as usize % sh.n();
            *e.at1_mut(i) = T::mk(-77.0, 7.5);
        }
        Ok(())
    }
}

/// Forms the sum of two matrices of real types. `$eval` evaluates it where that exists.
macro_rules! pair_fn {
    ($name:ident, $go:ident, [$($RS:ident, $CS:ident)?], $R:ty, $C:ty, $x:ident => $eval:expr) => {
        fn $go<T: Sc, L1: MkLayout, L2: MkLayout<IndexLayout = L1::IndexLayout>, D1: DataContainer<Item = T>, D2: DataContainer<Item = T> $(, $RS: SizeIdentifier, $CS: SizeIdentifier)?>(
            e: &Env<T>, a: Base<T, D1, L1, $R, $C>, b: Base<T, D2, L2, $R, $C>,
        ) -> Res
        where
            L1::IndexLayout: LayoutType<IndexLayout = L1::IndexLayout> + 'static,
        {
            let same = (e.c.a.rows, e.c.a.cols) == (e.c.b.rows, e.c.b.cols);
            macro_rules! form {
                ($sum:expr) => {{
                    if same {
                        let $x = $sum;
                        e.view(&$x)?;
                        if let Some(v) = $eval {
                            e.evaluated(v)?;
                            // still the same afterwards
                            e.view(&$x)?;
                        }
                    } else {
                        ensure!(refuses(|| { let _ = $sum; }), "{} was not refused", e.what());
                    }
                }};
            }
            let (ca, cb) = (e.c.a.n() > 0, e.c.b.n() > 0);
            match e.c.refs {
                (true, true) => {
                    form!(&a + &b);
                    if ca { e.a.check_view(&a, false)? }
                    if cb { e.b.check_view(&b, false)? }
                }
                (false, true) => {
                    form!(a + &b);
                    if cb { e.b.check_view(&b, false)? }
                }
                (true, false) => {
                    form!(&a + b);
                    if ca { e.a.check_view(&a, false)? }
                }
                (false, false) => form!(a + b),
            }
            Ok(())
        }
        fn $name<T: Sc, L1: MkLayout, L2: MkLayout<IndexLayout = L1::IndexLayout> $(, $RS: SizeIdentifier, $CS: SizeIdentifier)?>(e: &Env<T>, ba: &[T], bb: &[T]) -> Res
        where
            L1::IndexLayout: LayoutType<IndexLayout = L1::IndexLayout> + 'static,
        {
            let (sa, sb) = (&e.c.a, &e.c.b);
            let (pa, pb) = (&ba[sa.off..sa.off + sa.clen], &bb[sb.off..sb.off + sb.clen]);
            let va = || Base::<T, _, L1, $R, $C>::from_data(vecc(pa), L1::mk(sa));
            let vb = || Base::<T, _, L2, $R, $C>::from_data(vecc(pb), L2::mk(sb));
            let ra = || Base::<T, _, L1, $R, $C>::from_data(SliceContainer::new(pa), L1::mk(sa));
            let rb = || Base::<T, _, L2, $R, $C>::from_data(SliceContainer::new(pb), L2::mk(sb));
            match e.c.own {
                (true, true) => $go::<T, L1, L2, _, _ $(, $RS, $CS)?>(e, va(), vb()),
                (true, false) => $go::<T, L1, L2, _, _ $(, $RS, $CS)?>(e, va(), rb()),
                (false, true) => $go::<T, L1, L2, _, _ $(, $RS, $CS)?>(e, ra(), vb()),
                (false, false) => $go::<T, L1, L2, _, _ $(, $RS, $CS)?>(e, ra(), rb()),
            }
        }
    };
}
pair_fn!(pair_dyn, go_dyn, [], Dynamic, Dynamic, x => Some(Box::new(x.eval()) as Box<dyn Stored<T>>));
pair_fn!(pair_any, go_any, [RS, CS], RS, CS, x => None::<Box<dyn Stored<T>>>);

fn vecc<T: Sc>(src: &[T]) -> VectorContainer<T> {
    let mut v = VectorContainer::new(src.len());
    if !src.is_empty() {
        v.get_slice_mut(0, src.len()).copy_from_slice(src);
    }
    v
}

fn run<T: Sc>(c: &Case) -> Res {
    use Kind::*;
    let (ma, mb) = match c.near {
        Some(d) => near_models(&c.a, &c.b, d, c.fa),
        None => (Model::<T>::new(&c.a, c.fa, 0), Model::<T>::new(&c.b, c.fb, 1)),
    };
    let (mut abuf, mut bbuf, mut pa, mut pb) = (ma.buf.clone(), mb.buf.clone(), 0, 0);
    if let Some(d) = c.near {
        abuf = near_join(&ma, &mb, d);
        bbuf.clear();
        (pa, pb, _) = near_offsets(&c.a, &c.b, d);
    }
    let ba = &abuf[pa..pa + c.a.total];
    let bb = if c.near.is_some() { &abuf[pb..pb + c.b.total] } else { &bbuf[..] };
    let e = Env { c, a: &ma, b: &mb };
    type R = RowMajor;
    type C = ColumnMajor;
    type SR = ArbitraryStrideRowMajor;
    type SC = ArbitraryStrideColumnMajor;
    match (c.a.kind, c.b.kind) {
        (RM, RM) => pair_dyn::<T, R, R>(&e, ba, bb),
        (RM, SRM) => pair_dyn::<T, R, SR>(&e, ba, bb),
        (SRM, RM) => pair_dyn::<T, SR, R>(&e, ba, bb),
        (SRM, SRM) => pair_dyn::<T, SR, SR>(&e, ba, bb),
        (CM, CM) => pair_dyn::<T, C, C>(&e, ba, bb),
        (CM, SCM) => pair_dyn::<T, C, SC>(&e, ba, bb),
        (SCM, CM) => pair_dyn::<T, SC, C>(&e, ba, bb),
        (SCM, SCM) => pair_dyn::<T, SC, SC>(&e, ba, bb),
        (UT, UT) => pair_dyn::<T, UpperTriangular, UpperTriangular>(&e, ba, bb),
        (RVD, RVD) => pair_dyn::<T, RowVector, RowVector>(&e, ba, bb),
        (CVD, CVD) => pair_dyn::<T, ColumnVector, ColumnVector>(&e, ba, bb),
        (RV, RV) => pair_any::<T, RowVector, RowVector, Fixed1, Dynamic>(&e, ba, bb),
        (RV, SRV) => pair_any::<T, RowVector, ArbitraryStrideRowVector, Fixed1, Dynamic>(&e, ba, bb),
        (SRV, RV) => pair_any::<T, ArbitraryStrideRowVector, RowVector, Fixed1, Dynamic>(&e, ba, bb),
        (SRV, SRV) => pair_any::<T, ArbitraryStrideRowVector, ArbitraryStrideRowVector, Fixed1, Dynamic>(&e, ba, bb),
        (CV, CV) => pair_any::<T, ColumnVector, ColumnVector, Dynamic, Fixed1>(&e, ba, bb),
        (CV, SCV) => pair_any::<T, ColumnVector, ArbitraryStrideColumnVector, Dynamic, Fixed1>(&e, ba, bb),
        (SCV, CV) => pair_any::<T, ArbitraryStrideColumnVector, ColumnVector, Dynamic, Fixed1>(&e, ba, bb),
        (SCV, SCV) => pair_any::<T, ArbitraryStrideColumnVector, ArbitraryStrideColumnVector, Dynamic, Fixed1>(&e, ba, bb),
        k => panic!("no sum of {k:?}"),
    }?;
    ma.check_buf(ba)?;
    mb.check_buf(bb)
}

// --- a matrix and itself ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Twice {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    form: u8,
}
fn twice() -> BoxedStrategy<Twice> {
    let d = prop_oneof![2 => small_dims(), 1 => dims()].boxed();
    (ty(), spec_kinds(&RO_KINDS, d, ANY), fill(), any::<u8>()).prop_map(|(ty, s, fill, form)| Twice { ty, s, fill, form }).boxed()
}
fn check_twice(c: &Twice, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    if c.s.n() > 0 {
        o.hit()
    }
    with_ty!(c.ty, T => {
        let m = Model::<T>::new(&c.s, c.fill, 0);
        let mut buf = m.buf.clone();
        let sh = c.s.shape();
        let what = format!("the sum of a matrix and itself: {}", c.s.describe());
        let want = |r: usize, k: usize| m.at(r, k).radd(m.at(r, k));
        let mut res = Ok(());
        with_alg::<T>(&c.s, &mut buf, &mut |x| x.doubled(c.form as usize, &mut |v| res = check_view(v, sh, &what, sh.n() <= 2000, &want)));
        res?;
        m.check_buf(&buf)?;
        if DYN_KINDS.contains(&c.s.kind) {
            let mut res = Ok(());
            with_dyn::<T>(&c.s, &mut buf, &mut |x| {
                res = (|| {
                    let e = x.eval_doubled(c.form as usize);
                    check_view(&*e, sh, &format!("evaluated {what}"), false, &want)
                })()
            });
            res?;
            m.check_buf(&buf)?;
        }
        Ok(())
    })
}

// --- fixed sizes ------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fixed {
    ty: Ty,
    which: u8,
    fa: Fill,
    fb: Fill,
    form: u8,
}
fn fixed_cases() -> BoxedStrategy<Fixed> {
    (ty(), 0u8..8, fill(), fill(), 0u8..4).prop_map(|(ty, which, fa, fb, form)| Fixed { ty, which, fa, fb, form }).boxed()
}
fn check_fixed(c: &Fixed, o: &mut Obs) -> Res {
    o.hit();
    with_ty!(c.ty, T => fixed::<T>(c))
}
fn fixed<T: Sc>(c: &Fixed) -> Res {
    macro_rules! go {
        ($M:ty, $ctor:ident, $order:expr, $r:expr, $c:expr) => {{
            let (mut a, mut b) = (<$M>::$ctor(), <$M>::$ctor());
            let sh = Shape { order: $order, rows: $r, cols: $c };
            for i in 0..sh.n() {
                *a.get1d_mut(i) = elem(c.fa, 0, i);
                *b.get1d_mut(i) = elem(c.fb, 1, i);
            }
            let want = |r: usize, k: usize| elem::<T>(c.fa, 0, sh.idx(r, k)).radd(elem(c.fb, 1, sh.idx(r, k)));
            let what = concat!("sum of two ", stringify!($M));
            if c.form % 4 < 2 {
                check_view(&(&a + &b), sh, what, true, &want)?;
                for i in 0..sh.n() {
                    ensure!(a.get1d(i).same(elem(c.fa, 0, i)) && b.get1d(i).same(elem(c.fb, 1, i)), "{what}: an operand changed");
                }
            }
            match c.form % 4 {
                0 => check_view(&(a + &b), sh, what, true, &want),
                1 => check_view(&(&a + b), sh, what, true, &want),
                _ => check_view(&(a + b), sh, what, true, &want),
            }
        }};
    }
    type V<T, L, R, C, const N: usize> = GenericBaseMatrixMut<T, L, ArrayContainer<T, N>, R, C>;
    match c.which {
        0 => go!(Matrix22<T, RowMajor>, zeros_from_dim, Order::Row, 2, 2),
        1 => go!(Matrix33<T, ColumnMajor>, zeros_from_dim, Order::Col, 3, 3),
        2 => go!(Matrix23<T, RowMajor>, zeros_from_dim, Order::Row, 2, 3),
        3 => go!(Matrix32<T, ColumnMajor>, zeros_from_dim, Order::Col, 3, 2),
        4 => go!(V<T, RowVector, Fixed1, Fixed2, 2>, zeros_from_length, Order::Row, 1, 2),
        5 => go!(V<T, ColumnVector, Fixed3, Fixed1, 3>, zeros_from_length, Order::Col, 3, 1),
        6 => go!(V<T, RowMajor, Fixed1, Fixed3, 3>, zeros_from_dim, Order::Row, 1, 3),
        _ => go!(Matrix32<T, RowMajor>, zeros_from_dim, Order::Row, 3, 2),
    }
}

pub fn c08() -> Vec<Sub> {
    vec![
        sub("sums", 160_000, 3_000_000, cases, check),
        sub("same_operand", 40_000, 1_000_000, twice, check_twice),
        sub("dimension_refusals", 120_000, 2_000_000, bad_cases, check),
        sub("fixed_sizes", 20_000, 200_000, fixed_cases, check_fixed),
        sub("sums_large", 1_200, 4_000, big_cases, check),
        sub("sums_huge", 8, 300, huge_cases, check),
    ]
}
