//! C20: atan2 and random scalars.
use householder::types::*;
use householder::*;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use rand_distr::Distribution;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use vh::engine::*;
use vh::ensure;
use vh::scal::*;

// --- atan2 -------------------------------------------------------------------------------------------------

/// y and x by their bits (the low half for single precision).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Angle {
    single: bool,
    y: u64,
    x: u64,
}
fn bits64() -> BoxedStrategy<u64> {
    let special: Vec<f64> = vec![
        0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE,
        f64::from_bits(1), -f64::from_bits(1), 0.5, -2.0, 1e300, -1e300, 1e-300, -1e-300,
    ];
    prop_oneof![
        3 => prop::sample::select(special).prop_map(f64::to_bits),
        2 => any::<u64>(),
        3 => (-1000i32..=1000).prop_map(|i| (i as f64 / 8.0).to_bits()),
        3 => (-1.0f64..1.0).prop_map(f64::to_bits),
        1 => (any::<bool>(), 1.0f64..2.0, -1074i32..1023).prop_map(|(s, m, e)| { let v = m * 2f64.powi(e); (if s { -v } else { v }).to_bits() }),
    ]
    .boxed()
}
fn bits32() -> BoxedStrategy<u64> {
    let special: Vec<f32> = vec![
        0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE,
        f32::from_bits(1), -f32::from_bits(1), 0.5, -2.0, 1e30, -1e30, 1e-30, -1e-30,
    ];
    prop_oneof![
        3 => prop::sample::select(special).prop_map(f32::to_bits),
        2 => any::<u32>(),
        3 => (-1000i32..=1000).prop_map(|i| (i as f32 / 8.0).to_bits()),
        3 => (-1.0f32..1.0).prop_map(f32::to_bits),
        1 => (any::<bool>(), 1.0f32..2.0, -149i32..127).prop_map(|(s, m, e)| { let v = m * 2f32.powi(e); (if s { -v } else { v }).to_bits() }),
    ]
    .prop_map(u64::from)
    .boxed()
}
fn angles() -> BoxedStrategy<Angle> {
    let near = |b: BoxedStrategy<u64>, single: bool| {
        prop_oneof![
            4 => (b.clone(), b.clone()),
            // (almost) on a diagonal or its mirror image
            1 => (b, -3i64..=3, any::<bool>()).prop_map(move |(y, d, s)| {
                let sign = if s { if single { 1u64 << 31 } else { 1 << 63 } } else { 0 };
                let x = (y as i64).wrapping_add(d) as u64 ^ sign;
                (y, if single { x & 0xffff_ffff } else { x })
            }),
        ]
        .prop_map(move |(y, x)| Angle { single, y, x })
    };
    prop_oneof![near(bits64(), false), near(bits32(), true)].boxed()
}
fn generic<T: HScalar>(y: T, x: T) -> T {
    HScalar::atan2(y, x)
}
/// Place in the order of all values: neighbours differ by one.
fn rank64(v: f64) -> i128 {
    let b = v.to_bits();
    let m = (b & !(1 << 63)) as i128;
    if b >> 63 == 1 { -m - 1 } else { m }
}
fn rank32(v: f32) -> i128 {
    let b = v.to_bits();
    let m = (b & !(1 << 31)) as i128;
    if b >> 31 == 1 { -m - 1 } else { m }
}
fn check_angle(c: &Angle, o: &mut Obs) -> Res {
    o.label(if c.single { "single" } else { "double" });
    // (the values are exact in double precision)
    let (y, x) = if c.single { (f32::from_bits(c.y as u32) as f64, f32::from_bits(c.x as u32) as f64) } else { (f64::from_bits(c.y), f64::from_bits(c.x)) };
    let what = format!("atan2({y:?}, {x:?}) in {} precision", if c.single { "single" } else { "double" });
    let nan = y.is_nan() || x.is_nan();
    o.label_if(nan, "NaN");
    o.label_if(y == 0.0 || x == 0.0, "zero");
    o.label_if(y.is_infinite() || x.is_infinite(), "infinite");
    o.label_if(x < 0.0, "left-half-plane");
    if !nan {
        o.hit()
    }
    let (got, off) = if c.single {
        let g = generic(f32::from_bits(c.y as u32), f32::from_bits(c.x as u32));
        let w = f64::atan2(y, x) as f32;
        (g as f64, (rank32(g) - rank32(w)).abs())
    } else {
        let g = generic(f64::from_bits(c.y), f64::from_bits(c.x));
        (g, (rank64(g) - rank64(f64::atan2(y, x))).abs())
    };
    if nan {
        ensure!(got.is_nan(), "{what} is {got:?}, should be NaN");
        return Ok(());
    }
    ensure!(off <= 4, "{what} is {got:?}, should be {:?}", f64::atan2(y, x));
    // written out: half plane and quadrant
    use std::f64::consts::PI;
    let eps = if c.single { 1e-6 } else { 1e-15 };
    ensure!(got.is_sign_negative() == y.is_sign_negative(), "{what} is {got:?}: wrong side of the x axis");
    let a = got.abs();
    if x.is_sign_negative() {
        ensure!(a >= PI / 2.0 - eps && a <= PI + eps, "{what} is {got:?}: wrong side of the y axis");
    } else {
        ensure!(a <= PI / 2.0 + eps, "{what} is {got:?}: wrong side of the y axis");
    }
    if y == 0.0 {
        ensure!(if x.is_sign_negative() { (a - PI).abs() < eps } else { a == 0.0 }, "{what} is {got:?}");
    } else if x == 0.0 {
        ensure!((a - PI / 2.0).abs() < eps, "{what} is {got:?}");
    }
    Ok(())
}

// --- random scalars --------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Dist {
    Normal,
    Standard,
    Open01,
    /// uniform between two bounds
    Uniform(i32, u32),
    Exp,
    Gauss(i32, u32),
    /// numbers its samples, using no randomness at all
    Count,
    /// uses a varying number of words per sample
    Greedy(u8),
    /// special values by turns
    Specials,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Draws {
    dist: Dist,
    seed: u64,
    dynamic: bool,
    seq: Vec<Ty>,
}
fn draws() -> BoxedStrategy<Draws> {
    let dist = prop_oneof![
        2 => Just(Dist::Normal), 1 => Just(Dist::Standard), 1 => Just(Dist::Open01), 1 => Just(Dist::Exp),
        1 => (-100i32..100, 1u32..50).prop_map(|(a, b)| Dist::Uniform(a, b)),
        1 => (-100i32..100, 0u32..50).prop_map(|(a, b)| Dist::Gauss(a, b)),
        2 => Just(Dist::Count), 2 => (1u8..5).prop_map(Dist::Greedy), 1 => Just(Dist::Specials),
    ];
    (dist, any::<u64>(), any::<bool>(), prop::collection::vec(prop::sample::select(vec![Ty::F64, Ty::F32, Ty::C64, Ty::C32]), 1..8))
        .prop_map(|(dist, seed, dynamic, seq)| Draws { dist, seed, dynamic, seq })
        .boxed()
}
/// Both precisions of one distribution. Keeps count of its samples.
struct Both {
    d: Dist,
    n: Cell<u32>,
}
impl Both {
    fn one<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<f64> {
        let k = self.n.get();
        self.n.set(k + 1);
        match self.d {
            Dist::Count => Some(k as f64 + 1.0),
            Dist::Greedy(g) => {
                let mut s = 0.0;
                for _ in 0..=(k % g as u32) {
                    s += (rng.next_u32() % 1000) as f64;
                }
                Some(s)
            }
            Dist::Specials => Some([0.0, -0.0, f64::INFINITY, f64::NAN, f64::NEG_INFINITY, 1.5, -2.0][(k % 7) as usize]),
            _ => None,
        }
    }
}
macro_rules! both {
    ($R:ty) => {
        impl Distribution<$R> for Both {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $R {
                if let Some(v) = self.one(rng) {
                    return v as $R;
                }
                match self.d {
                    Dist::Standard => rand::distributions::Standard.sample(rng),
                    Dist::Open01 => rand::distributions::Open01.sample(rng),
                    Dist::Uniform(a, b) => rand::distributions::Uniform::new(a as $R, a as $R + b as $R).sample(rng),
                    Dist::Exp => rand_distr::Exp1.sample(rng),
                    Dist::Gauss(a, b) => rand_distr::Normal::new(a as $R, b as $R).unwrap().sample(rng),
                    _ => rand_distr::StandardNormal.sample(rng),
                }
            }
        }
    };
}
both!(f64);
both!(f32);

fn check_draws(c: &Draws, o: &mut Obs) -> Res {
    let complex = c.seq.iter().any(|t| matches!(t, Ty::C64 | Ty::C32));
    o.label(match c.dist {
        Dist::Normal => "standard-normal",
        Dist::Count | Dist::Greedy(_) | Dist::Specials => "custom-distribution",
        _ => "other-library-distribution",
    });
    o.label_if(complex, "complex");
    if complex || c.seq.len() > 1 {
        o.hit()
    }
    let (mut a, mut b) = (StdRng::seed_from_u64(c.seed), StdRng::seed_from_u64(c.seed));
    let (da, db) = (Both { d: c.dist, n: Cell::new(0) }, Both { d: c.dist, n: Cell::new(0) });
    for (i, t) in c.seq.iter().enumerate() {
        macro_rules! draw {
            ($T:ty) => {
                if c.dynamic {
                    let mut r: &mut dyn RngCore = &mut a;
                    <$T>::random_scalar(&mut r, &da)
                } else {
                    <$T>::random_scalar(&mut a, &da)
                }
            };
        }
        macro_rules! real {
            ($T:ty) => {{
                let v: $T = draw!($T);
                let w: $T = db.sample(&mut b);
                ensure!(v.same(w), "draw {i} ({t:?}) of {:?} is {v:?}, the distribution's sample is {w:?}", c.dist);
            }};
        }
        macro_rules! cpx {
            ($T:ty, $R:ty) => {{
                let v: $T = draw!($T);
                let re: $R = db.sample(&mut b);
                let im: $R = db.sample(&mut b);
                ensure!(v.same(<$T>::new(re, im)), "draw {i} ({t:?}) of {:?} is {v:?}, the distribution's samples are {re:?} and {im:?}", c.dist);
            }};
        }
        match t {
            Ty::F64 => real!(f64),
            Ty::F32 => real!(f32),
            Ty::C64 => cpx!(c64, f64),
            Ty::C32 => cpx!(c32, f32),
        }
        ensure!(da.n.get() == db.n.get(), "after draw {i} the distribution was sampled {} times, should be {}", da.n.get(), db.n.get());
    }
    ensure!(a == b, "{:?}: the generator is not where the samples leave it", c.dist);
    Ok(())
}

pub fn c20() -> Vec<Sub> {
    vec![
        sub("atan2", 400_000, 10_000_000, angles, check_angle),
        sub("random_scalar", 120_000, 3_000_000, draws, check_draws),
    ]
}
