//! C18: random filling.
use householder::*;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

/// Two families of generators: a strong one, and a plain counter-based one (any generator must do).
#[derive(Clone)]
enum Gen {
    Std(StdRng),
    Mix(u64),
}
impl Gen {
    fn new(kind: bool, seed: u64) -> Self {
        if kind {
            Gen::Std(StdRng::seed_from_u64(seed))
        } else {
            Gen::Mix(seed)
        }
    }
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        match self {
            Gen::Std(r) => r.next_u32(),
            Gen::Mix(_) => (self.next_u64() >> 32) as u32,
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Gen::Std(r) => r.next_u64(),
            Gen::Mix(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                mix(*s, 0x5bd1)
            }
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

// --- the stream of draws ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    ty: Ty,
    /// matrices filled one after the other from one generator
    ms: Vec<MSpec>,
    fill: Fill,
    strong: bool,
    seed: u64,
}
fn streams() -> BoxedStrategy<Stream> {
    (ty(), prop::collection::vec(spec_kinds(&ALL_KINDS, dims(), INJ), 1..=3), fill(), any::<bool>(), any::<u64>())
        .prop_map(|(ty, ms, fill, strong, seed)| Stream { ty, ms, fill, strong, seed })
        .boxed()
}
fn streams_big() -> BoxedStrategy<Stream> {
    (ty(), prop::collection::vec(spec_kinds(&ALL_KINDS, big_dims(), INJ), 1..=1), fill(), any::<bool>(), any::<u64>())
        .prop_map(|(ty, ms, fill, strong, seed)| Stream { ty, ms, fill, strong, seed })
        .boxed()
}
fn streams_huge() -> BoxedStrategy<Stream> {
    (ty(), prop::collection::vec(spec_kinds(&ALL_KINDS, huge_dims(), INJ), 1..=1), fill(), any::<bool>(), any::<u64>())
        .prop_map(|(ty, ms, fill, strong, seed)| Stream { ty, ms, fill, strong, seed })
        .boxed()
}
/// One logical matrix in several physical forms.
fn forms() -> BoxedStrategy<Stream> {
    let fams: Vec<&'static [Kind]> = vec![&[Kind::RM, Kind::SRM], &[Kind::CM, Kind::SCM], &[Kind::UT], &[Kind::RVD, Kind::RV, Kind::SRV], &[Kind::CVD, Kind::CV, Kind::SCV]];
    (ty(), prop::sample::select(fams), small_dims(), fill(), any::<bool>(), any::<u64>())
        .prop_flat_map(|(ty, fam, d, fill, strong, seed)| {
            prop::collection::vec(prop::sample::select(fam.to_vec()).prop_flat_map(move |k| spec_for(k, d, INJ)), 2..=3)
                .prop_map(move |ms| Stream { ty, ms, fill, strong, seed })
        })
        .boxed()
}
fn label(c: &Stream, o: &mut Obs) {
    for s in &c.ms {
        label_spec(s, o);
    }
    o.label(if c.strong { "StdRng" } else { "counter-generator" });
    o.label(if matches!(c.ty, Ty::C32 | Ty::C64) { "complex" } else { "real" });
    if c.ms.iter().any(|s| s.n() > 1) {
        o.hit()
    }
}
fn check_stream(c: &Stream, o: &mut Obs) -> Res {
    label(c, o);
    with_ty!(c.ty, T => stream::<T>(c))
}
fn fill_one<T: Sc>(s: &MSpec, fill: Fill, rng: &mut Gen, reference: &mut Gen) -> Result<Vec<T>, Fail> {
    let mut model = Model::<T>::new(s, fill, 0);
    let mut buf = model.buf.clone();
    let sh = s.shape();
    let mut drawn = Vec::new();
    for i in 0..sh.n() {
        let v = T::draw(reference);
        drawn.push(v);
        let (r, k) = sh.at(i);
        model.set(r, k, v);
    }
    let mut res = Ok(());
    with_stored(s, &mut buf, &mut |m| {
        m.fill(rng);
        res = model.check_view(m, sh.n() <= 300);
    });
    res?;
    model.check_buf(&buf)?;
    Ok(drawn)
}
fn at_same_point(a: &Gen, b: &Gen, what: &str) -> Res {
    let (mut a, mut b) = (a.clone(), b.clone());
    for _ in 0..3 {
        ensure!(a.next_u64() == b.next_u64(), "{what}: afterwards the generator is not where the draws of the elements leave it");
    }
    Ok(())
}
fn stream<T: Sc>(c: &Stream) -> Res {
    let mut a = Gen::new(c.strong, c.seed);
    let mut b = a.clone();
    for s in &c.ms {
        fill_one::<T>(s, c.fill, &mut a, &mut b)?;
        at_same_point(&a, &b, &s.describe())?;
    }
    Ok(())
}
fn check_forms(c: &Stream, o: &mut Obs) -> Res {
    label(c, o);
    with_ty!(c.ty, T => same_in_all_forms::<T>(c))
}
/// Without the reference stream: equal generators give equal matrices and end in equal states.
fn same_in_all_forms<T: Sc>(c: &Stream) -> Res {
    let mut first: Option<(Vec<T>, Gen)> = None;
    for s in &c.ms {
        let mut buf: Vec<T> = fill_vec(c.fill, 0, s.total);
        let mut g = Gen::new(c.strong, c.seed);
        let mut got = Vec::new();
        let sh = s.shape();
        with_stored(s, &mut buf, &mut |m| {
            m.fill(&mut g);
            for i in 0..sh.n() {
                let (r, k) = sh.at(i);
                got.push(m.rd(r, k));
            }
        });
        match &first {
            None => first = Some((got, g)),
            Some((w, h)) => {
                for i in 0..w.len() {
                    ensure!(got[i].same(w[i]), "{} and {}: element {:?} differs: {} and {}", s.describe(), c.ms[0].describe(), sh.at(i), show(got[i]), show(w[i]));
                }
                at_same_point(&g, h, &s.describe())?;
            }
        }
    }
    Ok(())
}

// --- generators of several types, by the library's own generic function ------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Typed {
    ty: Ty,
    what: u8,
    dim: (usize, usize),
    seed: u64,
}
fn typed() -> BoxedStrategy<Typed> {
    (ty(), 0u8..8, small_dims(), any::<u64>()).prop_map(|(ty, what, dim, seed)| Typed { ty, what, dim, seed }).boxed()
}
fn check_typed(c: &Typed, o: &mut Obs) -> Res {
    if c.dim.0 * c.dim.1 > 1 {
        o.hit()
    }
    macro_rules! go {
        ($T:ty) => {{
            type T = $T;
            let (r, k) = c.dim;
            macro_rules! one {
                ($m:expr, $name:expr) => {{
                    let mut m = $m;
                    o.label($name);
                    let mut rng = StdRng::seed_from_u64(c.seed);
                    let mut dynamic = rng.clone();
                    let mut reference = rng.clone();
                    let by_ref = c.seed % 2 == 0;
                    if by_ref {
                        m.fill_from_rand_standard_normal(&mut rng);
                    } else {
                        let mut d: &mut dyn RngCore = &mut dynamic;
                        m.fill_from_rand_standard_normal(&mut d);
                        rng = dynamic;
                    }
                    for i in 0..m.layout().number_of_elements() {
                        let (v, w) = (m.get1d(i), <T as Sc>::draw(&mut reference));
                        ensure!(v.same(w), "{} {:?}: element {i} is {}, the generator's draw {i} is {}", $name, m.dim(), show(v), show(w));
                    }
                    ensure!(rng.gen::<u64>() == reference.gen::<u64>(), "{} {:?}: other generator state afterwards", $name, m.dim());
                }};
            }
            match c.what {
                0 => one!(MatrixD::<T, RowMajor>::zeros_from_dim(r, k), "row-major"),
                1 => one!(MatrixD::<T, ColumnMajor>::zeros_from_dim(r, k), "column-major"),
                2 => one!(UpperTriangularMatrix::<T>::zeros_from_dim(r, r), "upper-triangular"),
                3 => one!(RowVectorD::<T>::zeros_from_length(k), "row-vector"),
                4 => one!(ColumnVectorD::<T>::zeros_from_length(r), "column-vector"),
                5 => one!(Matrix::<T, householder::base_matrix::BaseMatrix<T, ArrayContainer<T, 6>, RowMajor, Fixed2, Fixed3>, RowMajor, Fixed2, Fixed3>::zeros_from_dim(), "fixed"),
                6 => {
                    let mut p = MatrixD::<T, RowMajor>::zeros_from_dim(r + 2, k + 2);
                    one!(p.block_mut((1, 1), (r, k)), "block")
                }
                _ => {
                    let mut p = MatrixD::<T, RowMajor>::zeros_from_dim(r + 2, k + 2);
                    let (_, _, _, q) = p.split_in_four_mut((2, 2));
                    one!(q, "quadrant")
                }
            }
        }};
    }
    match c.ty {
        Ty::F64 => go!(f64),
        Ty::F32 => go!(f32),
        Ty::C64 => go!(householder::types::c64),
        Ty::C32 => go!(householder::types::c32),
    }
    Ok(())
}

// --- the distribution --------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Moments {
    ty: Ty,
    s: MSpec,
    seed: u64,
}
fn moments() -> BoxedStrategy<Moments> {
    let d = prop_oneof![(100usize..=170, 100usize..=170), (1usize..=2, 12000usize..=20000), (12000usize..=20000, 1usize..=2)];
    let kinds: &'static [Kind] = &[Kind::RM, Kind::CM, Kind::SRM, Kind::SCM, Kind::UT, Kind::RV, Kind::CV];
    (ty(), prop::sample::select(kinds.to_vec()), d, any::<u64>())
        .prop_flat_map(|(ty, k, d, seed)| {
            let d = match k {
                Kind::UT => (200, 200),
                Kind::RV | Kind::CV => (d.0 * d.1, d.0 * d.1),
                _ => d,
            };
            spec_for(k, d, INJ).prop_map(move |s| Moments { ty, s, seed })
        })
        .boxed()
}
/// |sum| of n independent terms of mean 0 and variance v must be below this: beyond ten standard deviations.
fn far(n: usize, v: f64) -> f64 {
    10.0 * (n as f64 * v).sqrt()
}
fn series(x: &[f64], what: &str) -> Res {
    let n = x.len();
    let s1: f64 = x.iter().sum();
    let s2: f64 = x.iter().map(|v| v * v - 1.0).sum();
    let lag: f64 = x.windows(2).map(|w| w[0] * w[1]).sum();
    let lag2: f64 = x.windows(3).map(|w| w[0] * w[2]).sum();
    // shares of a normal distribution
    let within = |t: f64| x.iter().filter(|v| v.abs() < t).count() as f64;
    let neg = x.iter().filter(|v| **v < 0.0).count() as f64;
    ensure!(s1.abs() < far(n, 1.0), "{what}: mean {} of {n} entries is not 0", s1 / n as f64);
    ensure!(s2.abs() < far(n, 2.0), "{what}: variance {} of {n} entries is not 1", 1.0 + s2 / n as f64);
    ensure!(lag.abs() < far(n, 1.0) && lag2.abs() < far(n, 1.0), "{what}: neighbouring entries are correlated ({} and {})", lag / n as f64, lag2 / n as f64);
    for (t, p) in [(0.5, 0.382925), (1.0, 0.682689), (2.0, 0.954500)] {
        let d = (within(t) - p * n as f64).abs();
        ensure!(d < far(n, p * (1.0 - p)), "{what}: a share of {} instead of {p} lies within {t}", within(t) / n as f64);
    }
    ensure!((neg - 0.5 * n as f64).abs() < far(n, 0.25), "{what}: a share of {} is negative", neg / n as f64);
    Ok(())
}
fn normal<T: Sc>(v: &[T], what: &str) -> Res {
    let re: Vec<f64> = v.iter().map(|x| x.parts().0).collect();
    series(&re, &format!("{what}: real part"))?;
    if T::COMPLEX {
        let im: Vec<f64> = v.iter().map(|x| x.parts().1).collect();
        series(&im, &format!("{what}: imaginary part"))?;
        let n = re.len();
        let cross: f64 = re.iter().zip(&im).map(|(a, b)| a * b).sum();
        let next: f64 = re[1..].iter().zip(&im).map(|(a, b)| a * b).sum();
        ensure!(cross.abs() < far(n, 1.0) && next.abs() < far(n, 1.0), "{what}: real and imaginary parts are correlated");
    }
    Ok(())
}
fn check_moments(c: &Moments, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    o.hit();
    with_ty!(c.ty, T => {
        let mut buf = vec![T::mk(7.0, 7.0); c.s.total];
        let mut got = Vec::new();
        with_stored(&c.s, &mut buf, &mut |m| {
            m.fill(&mut StdRng::seed_from_u64(c.seed));
            for i in 0..c.s.n() {
                got.push(m.get1(i));
            }
        });
        normal::<T>(&got, &c.s.describe())
    })
}

// --- the creation macros ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Macros {
    ty: Ty,
    which: u8,
    dim: (usize, usize),
    big: bool,
}
fn macros() -> BoxedStrategy<Macros> {
    prop_oneof![
        30 => (ty(), 0u8..6, small_dims()).prop_map(|(ty, which, dim)| Macros { ty, which, dim, big: false }),
        1 => (ty(), 0u8..6, (100usize..150, 100usize..150)).prop_map(|(ty, which, dim)| Macros { ty, which, dim, big: true }),
    ]
    .boxed()
}
fn check_macro(c: &Macros, o: &mut Obs) -> Res {
    let d = c.dim;
    o.label_if(c.big, "distribution-tested");
    if d.0 * d.1 > 1 {
        o.hit()
    }
    let len = if c.big { d.0 * d.1 } else { d.0 };
    macro_rules! go {
        ($T:ty) => {{
            type T = $T;
            macro_rules! one {
                ($e:expr, $dim:expr) => {{
                    let (x, y) = ($e, $e);
                    let n = $dim.0 * $dim.1;
                    for m in [&x, &y] {
                        ensure!(m.dim() == $dim, "{}: dimension {:?}, should be {:?}", stringify!($e), m.dim(), $dim);
                        ensure!(m.layout().number_of_elements() == n, "{}: {} elements", stringify!($e), m.layout().number_of_elements());
                    }
                    let v: Vec<T> = (0..n).map(|i| x.get1d(i)).collect();
                    let w: Vec<T> = (0..n).map(|i| y.get1d(i)).collect();
                    for i in 0..n {
                        let (a, b) = v[i].parts();
                        // a normal variate is never exactly zero, and never far out, in practice
                        ensure!(a != 0.0 && a.abs() < 15.0 && b.abs() < 15.0 && (b != 0.0) == <T as Sc>::COMPLEX, "{}: element {i} was not drawn: {}", stringify!($e), show(v[i]));
                    }
                    // two independent matrices; single entries may agree by chance in single precision
                    ensure!(n < 2 || (0..n).any(|i| !v[i].same(w[i])), "{}: two matrices of {n} elements are equal", stringify!($e));
                    if c.big {
                        normal::<T>(&v, stringify!($e))?;
                    }
                }};
            }
            match c.which {
                0 => one!(rand_mat![T, d], d),
                1 => one!(rand_mat![T, d, RowMajor], d),
                2 => one!(rand_mat![T, d, ColumnMajor], d),
                3 => one!(rand_vector![T, len], (len, 1)),
                4 => one!(rand_vector![T, len, ColumnVector], (len, 1)),
                _ => one!(rand_vector![T, len, RowVector], (1, len)),
            }
        }};
    }
    match c.ty {
        Ty::F64 => go!(f64),
        Ty::F32 => go!(f32),
        Ty::C64 => go!(householder::types::c64),
        Ty::C32 => go!(householder::types::c32),
    }
    Ok(())
}

pub fn c18() -> Vec<Sub> {
    vec![
        sub("stream", 80_000, 1_500_000, streams, check_stream),
        sub("stream_large", 800, 8_000, streams_big, check_stream),
        sub("stream_huge", 8, 300, streams_huge, check_stream),
        sub("forms", 60_000, 1_000_000, forms, check_forms),
        sub("typed", 60_000, 1_000_000, typed, check_typed),
        sub("distribution", 800, 15_000, moments, check_moments),
        sub("macros", 12_000, 200_000, macros, check_macro),
    ]
}
