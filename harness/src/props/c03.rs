//! C03: histories of writes against a model of the whole buffer.
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum W {
    Get,
    Get1,
    Unchecked,
    Unchecked1,
    Slice,
    Ptr,
    Ref,
    RefUnchecked1,
    /// every element replaced from its linear index and old value
    ForEach,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    w: W,
    pick: u32,
    val: u32,
    /// after the write look at everything, not only at the element
    full: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
    vals: Fill,
    ops: Vec<Op>,
}

fn hist(kinds: &'static [Kind], d: BoxedStrategy<(usize, usize)>, nops: usize) -> BoxedStrategy<Hist> {
    let w = prop::sample::select(vec![W::Get, W::Get, W::Get1, W::Get1, W::Unchecked, W::Unchecked1, W::Slice, W::Ptr, W::Ref, W::RefUnchecked1, W::ForEach]);
    let op = (w, any::<u32>(), any::<u32>(), prop::bool::weighted(0.15)).prop_map(|(w, pick, val, full)| Op { w, pick, val, full });
    (ty(), spec_kinds(kinds, d, INJ), fill(), fill(), prop::collection::vec(op, 1..=nops))
        .prop_map(|(ty, spec, fill, vals, ops)| Hist { ty, spec, fill, vals, ops })
        .boxed()
}
fn small() -> BoxedStrategy<Hist> {
    hist(&ALL_KINDS, dims(), 24)
}
fn large() -> BoxedStrategy<Hist> {
    hist(&RO_KINDS, big_dims(), 4)
}
fn huge() -> BoxedStrategy<Hist> {
    hist(&RO_KINDS, huge_dims(), 4)
}

fn check(c: &Hist, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    let n = c.spec.n();
    if n >= 2 && c.ops.len() >= 2 {
        o.hit()
    }
    for op in &c.ops {
        o.label(match op.w {
            W::Get => "write-get_mut",
            W::Get1 => "write-get1d_mut",
            W::Unchecked => "write-unchecked",
            W::Unchecked1 => "write-1d-unchecked",
            W::Slice => "write-raw-slice",
            W::Ptr => "write-pointer",
            W::Ref | W::RefUnchecked1 => "write-through-reference",
            W::ForEach => "write-for_each",
        });
    }
    with_ty!(c.ty, T => run::<T>(c))
}

fn run<T: Sc>(c: &Hist) -> Res {
    let mut model = Model::<T>::new(&c.spec, c.fill, 0);
    let mut buf = model.buf.clone();
    let mut res = Ok(());
    with_stored::<T>(&c.spec, &mut buf, &mut |m| res = history(c, &mut model, m));
    res?;
    model.check_buf(&buf)
}

fn history<T: Sc>(c: &Hist, model: &mut Model<T>, m: &mut dyn Stored<T>) -> Res {
    let s = &c.spec;
    let sh = s.shape();
    let n = sh.n();
    model.check_view(m, true)?;
    if n == 0 {
        m.for_each(&mut |_| panic!("closure called on an empty matrix"));
        return Ok(());
    }
    for op in &c.ops {
        let i = op.pick as usize % n;
        let (r, k) = sh.at(i);
        let v: T = elem(c.vals, 3, op.val as usize);
        match op.w {
            W::Get => *m.at_mut(r, k) = v,
            W::Get1 => *m.at1_mut(i) = v,
            W::Unchecked => unsafe { *m.atu_mut(r, k) = v },
            W::Unchecked1 => unsafe { *m.atu1_mut(i) = v },
            W::Slice => {
                let p = s.raw(r, k);
                // a window around the element
                let lo = p.saturating_sub(op.val as usize % 3);
                m.slice_mut(lo, p + 1)[p - lo] = v
            }
            W::Ptr => unsafe { *m.ptr_mut().add(s.raw(r, k)) = v },
            W::Ref => m.wrap_mut(1 + op.val as usize % 2, &mut |x| *x.at_mut(r, k) = v),
            W::RefUnchecked1 => m.wrap_mut(1 + op.val as usize % 2, &mut |x| unsafe { *x.atu1_mut(i) = v }),
            W::ForEach => {
                let mut j = 0;
                m.for_each(&mut |x| {
                    *x = elem(c.vals, 3, (op.val as usize).wrapping_add(j));
                    j += 1
                });
                ensure!(j == n, "{}: for_each visited {j} of {n} elements", s.describe());
                for j in 0..n {
                    let (r, k) = sh.at(j);
                    model.set(r, k, elem(c.vals, 3, (op.val as usize).wrapping_add(j)));
                }
            }
        }
        if !matches!(op.w, W::ForEach) {
            model.set(r, k, v);
        }
        // the element itself, by every path
        let want = model.at(r, k);
        let p = s.raw(r, k);
        let got = [m.rd(r, k), m.get1(i), unsafe { m.getu(r, k) }, unsafe { m.getu1(i) }, m.slice(p, p + 1)[0], unsafe { *m.ptr().add(p) }];
        for (g, nm) in got.iter().zip(["get", "get1d", "get_unchecked", "get1d_unchecked", "get_slice", "get_pointer"]) {
            ensure!(g.same(want), "{}: after {:?} of ({r},{k}), {nm} reads {} instead of {}", s.describe(), op.w, show(*g), show(want));
        }
        if op.full {
            model.check_view(m, false)?;
        }
    }
    model.check_view(m, n <= 5000)?;
    // the whole storage as one slice
    let all = m.slice(0, s.clen);
    for (p, x) in all.iter().enumerate() {
        ensure!(x.same(model.buf[s.off + p]), "{}: raw slice item {p} is {} instead of {}", s.describe(), show(*x), show(model.buf[s.off + p]));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ro {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
}
fn rocase() -> BoxedStrategy<Ro> {
    (ty(), spec_kinds(&RO_KINDS, dims(), ANY), fill()).prop_map(|(ty, spec, fill)| Ro { ty, spec, fill }).boxed()
}
/// Read-only storage shows the caller's values by every path and stays as it was.
fn check_ro(c: &Ro, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    if c.spec.n() >= 2 {
        o.hit()
    }
    with_ty!(c.ty, T => {
        let model = Model::<T>::new(&c.spec, c.fill, 0);
        let buf = model.buf.clone();
        let mut res = Ok(());
        with_ro::<T>(&c.spec, &buf, &mut |m| {
            res = (|| {
                model.check_view(m, true)?;
                ensure!(c.spec.n() == 0 || m.ptr() == unsafe { buf.as_ptr().add(c.spec.off) }, "{}: pointer is not the caller's memory", c.spec.describe());
                for p in 0..c.spec.extent() {
                    ensure!(m.slice(p, p + 1)[0].same(model.buf[c.spec.off + p]), "{}: raw slice item {p}", c.spec.describe());
                }
                Ok(())
            })()
        });
        res?;
        model.check_buf(&buf)
    })
}

pub fn c03() -> Vec<Sub> {
    vec![
        sub("write_histories", 60_000, 800_000, small, check),
        sub("read_only", 30_000, 300_000, rocase, check_ro),
        sub("write_histories_large", 1_200, 5_000, large, check),
        sub("write_histories_huge", 8, 300, huge, check),
    ]
}
