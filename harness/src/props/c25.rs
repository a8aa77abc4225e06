//! C25: results depend on the arguments only.
use super::hist::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::scal::Ty;
use vh::with_ty;

fn in_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}

fn check_alone(h: &Hist, o: &mut Obs) -> Res {
    // a thread of its own, whose thread-local state is fresh
    let n = in_thread(|| guarded(|| with_ty!(h.ty, T => play::<T>(h))))?;
    if n >= 5 {
        o.hit()
    }
    o.label_if(n >= 15, "15-or-more-operations");
    Ok(())
}

/// Panics become failures: these threads have nobody else to catch them.
fn guarded<R>(f: impl FnOnce() -> Result<R, Fail>) -> Result<R, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => {
            let c = vh::alloc::take_corrupt();
            ensure!(c == 0, "guard bytes around a heap block were overwritten");
            r
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(format!("unexpected panic: {m}"))
        }
    }
}

/// One history after another on one thread: what the first leaves behind must not matter to the second.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct After {
    first: Hist,
    second: Hist,
    interleaved: bool,
}
fn afters() -> BoxedStrategy<After> {
    (hist(20), hist(20), any::<bool>()).prop_map(|(first, second, interleaved)| After { first, second, interleaved }).boxed()
}
fn check_after(c: &After, o: &mut Obs) -> Res {
    o.label_if(c.first.ty != c.second.ty, "two-scalar-types");
    let n = in_thread(|| {
        guarded(|| {
            with_ty!(c.first.ty, T => with_ty!(c.second.ty, S => {
                if c.interleaved {
                    let (mut a, mut b) = (World::<T>::new(c.first.dim), World::<S>::new(c.second.dim));
                    for i in 0..c.first.ops.len().max(c.second.ops.len()) {
                        if let Some(op) = c.first.ops.get(i) {
                            a.step(i, op)?
                        }
                        if let Some(op) = c.second.ops.get(i) {
                            b.step(i, op)?
                        }
                    }
                    a.check_all("at the end")?;
                    b.check_all("at the end")?;
                    Ok(a.done.min(b.done))
                } else {
                    let x = play::<T>(&c.first)?;
                    Ok(play::<S>(&c.second)?.min(x))
                }
            }))
        })
    })?;
    if n >= 3 {
        o.hit()
    }
    Ok(())
}

/// Several histories at once, each on its own thread and repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    hs: Vec<Hist>,
    reps: u8,
}
fn togethers() -> BoxedStrategy<Together> {
    (prop::collection::vec(hist(16), 2..=4), 5u8..=20).prop_map(|(hs, reps)| Together { hs, reps }).boxed()
}
fn check_together(c: &Together, o: &mut Obs) -> Res {
    let gate = std::sync::Barrier::new(c.hs.len());
    let rs: Vec<Result<u32, Fail>> = std::thread::scope(|s| {
        let js: Vec<_> = c
            .hs
            .iter()
            .map(|h| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    let mut n = 0;
                    for _ in 0..c.reps {
                        n = guarded(|| with_ty!(h.ty, T => play::<T>(h)))?;
                    }
                    Ok(n)
                })
            })
            .collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let mut least = u32::MAX;
    for r in rs {
        least = least.min(r?)
    }
    if least >= 3 {
        o.hit()
    }
    o.label_if(c.hs.iter().all(|h| h.ty == Ty::F64), "all-f64");
    Ok(())
}

/// Threads that work on the same operands, and on disjoint parts of one matrix, at once.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    m: u8,
    k: u8,
    n: u8,
    split: (u8, u8),
    seed: u32,
    threads: u8,
    reps: u8,
}
fn shareds() -> BoxedStrategy<Shared> {
    (1u8..=24, 1u8..=24, 1u8..=24, (0u8..=24, 0u8..=24), any::<u32>(), 2u8..=4, 2u8..=8)
        .prop_map(|(m, k, n, split, seed, threads, reps)| Shared { m, k, n, split, seed, threads, reps })
        .boxed()
}
fn check_shared(c: &Shared, o: &mut Obs) -> Res {
    use householder::*;
    let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
    let v = |w: u64, i: usize, j: usize| (vh::scal::mix(c.seed as u64 ^ w << 33, (i * 64 + j) as u64) % 15) as f64 - 7.0;
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(m, k);
    let mut b = MatrixD::<f64, ColumnMajor>::zeros_from_dim(k, n);
    for i in 0..k {
        (0..m).for_each(|r| *a.get_mut(r, i) = v(1, r, i));
        (0..n).for_each(|r| *b.get_mut(i, r) = v(2, i, r));
    }
    let sum = |r: usize, s: usize, t: f64| (0..k).map(|i| v(1, r, i) * v(2, i, s)).sum::<f64>() * t;
    let (a, b) = (&a, &b);
    let gate = std::sync::Barrier::new(c.threads as usize);
    if m * n > 1 && k > 1 {
        o.hit()
    }
    let rs: Vec<Res> = std::thread::scope(|s| {
        let js: Vec<_> = (0..c.threads as usize)
            .map(|t| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    for _ in 0..c.reps {
                        guarded(|| {
                            let f = t as f64 + 1.0;
                            let p = a.dot(b);
                            let e = (f * a + a).eval();
                            let mut q = MatrixD::<f64, ColumnMajor>::zeros_from_dim(m, n);
                            f64::matmul(f, a, b, 0.0, &mut q);
                            for r in 0..m {
                                for s in 0..n {
                                    ensure!(p.get(r, s) == sum(r, s, 1.0), "thread {t}: dot of {m}x{k} and {k}x{n}: element ({r},{s}) is {}, should be {}", p.get(r, s), sum(r, s, 1.0));
                                    ensure!(q.get(r, s) == sum(r, s, f), "thread {t}: matmul of {m}x{k} and {k}x{n}: element ({r},{s}) is {}, should be {}", q.get(r, s), sum(r, s, f));
                                }
                                for i in 0..k {
                                    let w = f * v(1, r, i) + v(1, r, i);
                                    ensure!(e.get(r, i) == w, "thread {t}: evaluated sum of {m}x{k}: element ({r},{i}) is {}, should be {w}", e.get(r, i));
                                }
                            }
                            Ok(())
                        })?;
                    }
                    Ok(())
                })
            })
            .collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    rs.into_iter().collect::<Res>()?;
    // the four parts of one matrix, each computed by its own thread
    let (i, j) = (c.split.0 as usize % (m + 1), c.split.1 as usize % (n + 1));
    let mut whole = MatrixD::<f64, RowMajor>::zeros_from_dim(m, n);
    let gate = std::sync::Barrier::new(4);
    {
        let (q0, q1, q2, q3) = whole.split_in_four_mut((i, j));
        std::thread::scope(|s| {
            for (mut q, r0, c0) in [(q0, 0, 0), (q1, 0, j), (q2, i, 0), (q3, i, j)] {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    let (h, w) = q.dim();
                    for _ in 0..c.reps {
                        f64::matmul(1.0, &a.block((r0, 0), (h, k)), &b.block((0, c0), (k, w)), 0.0, &mut q);
                        q.for_each(|v| *v *= 2.0);
                    }
                });
            }
        });
    }
    for r in 0..m {
        for s in 0..n {
            ensure!(whole.get(r, s) == sum(r, s, 2.0), "the four parts of a {m}x{n} product split at {:?}, by four threads: element ({r},{s}) is {}, should be {}", (i, j), whole.get(r, s), sum(r, s, 2.0));
        }
    }
    Ok(())
}

pub fn c25() -> Vec<Sub> {
    vec![
        sub("alone", 60_000, 600_000, || hist(40), check_alone),
        sub("after", 40_000, 400_000, afters, check_after),
        sub("together", 6_000, 60_000, togethers, check_together),
        sub("shared", 7_500, 60_000, shareds, check_shared),
    ]
}
