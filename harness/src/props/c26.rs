//! C26: memory is released exactly once.
use super::hist::*;
use vh::alloc;
use vh::engine::*;
use vh::ensure;
use vh::with_ty;

fn check_hist(h: &Hist, o: &mut Obs) -> Res {
    let mut n = 0;
    let mut held = [(0i64, 0i64); 3];
    // Lazily created state may stay after the first run; nothing may stay after a later one.
    for t in &mut held {
        n = with_ty!(h.ty, T => play::<T>(h))?;
        *t = alloc::live();
    }
    let (a, b) = (held[1], held[2]);
    ensure!(b.0 <= a.0 && b.1 <= a.1, "one more run of this history leaves {} more blocks with {} bytes unreleased", b.0 - a.0, b.1 - a.1);
    ensure!(b.0 >= a.0 && b.1 >= a.1, "one more run of this history releases {} blocks with {} bytes more than it acquired", a.0 - b.0, a.1 - b.1);
    if n >= 3 {
        o.hit()
    }
    o.label_if(n >= 15, "15-or-more-operations");
    Ok(())
}

pub fn c26() -> Vec<Sub> {
    vec![sub("histories", 120_000, 1_500_000, || hist(30), check_hist), sub("short", 80_000, 1_000_000, || hist(5), check_hist)]
}
