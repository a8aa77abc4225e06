//! C21: for_each.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Act {
    /// look only
    Look,
    /// number the elements
    Number,
    /// element := running sum
    Running,
    /// element := f(element)
    Map,
    /// swap with the previous one's old value
    Shift,
    /// write only every third one
    Some,
    /// panics in the middle: what was done before stays
    Panic,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Each {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    acts: Vec<Act>,
}
fn acts() -> BoxedStrategy<Vec<Act>> {
    use Act::*;
    prop::collection::vec(prop::sample::select(vec![Look, Number, Running, Map, Shift, Some, Number, Panic]), 1..4).boxed()
}
fn eachs() -> BoxedStrategy<Each> {
    (ty(), spec_kinds(&ALL_KINDS, dims(), INJ), fill(), acts()).prop_map(|(ty, s, fill, acts)| Each { ty, s, fill, acts }).boxed()
}
fn eachs_big() -> BoxedStrategy<Each> {
    (ty(), spec_kinds(&ALL_KINDS, big_dims(), INJ), fill(), acts()).prop_map(|(ty, s, fill, acts)| Each { ty, s, fill, acts }).boxed()
}
fn eachs_huge() -> BoxedStrategy<Each> {
    (ty(), spec_kinds(&ALL_KINDS, huge_dims(), INJ), fill(), acts()).prop_map(|(ty, s, fill, acts)| Each { ty, s, fill, acts }).boxed()
}
fn check_each(c: &Each, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    o.label_if(c.acts.contains(&Act::Panic), "closure-panics");
    o.label_if(c.s.clen > c.s.n(), "padding");
    if c.s.n() > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => each::<T>(c))
}

/// The closure as a state machine: applied once to the model and once by the library.
struct Closure<T> {
    act: Act,
    k: usize,
    sum: T,
    last: T,
    stop: usize,
}
impl<T: Sc> Closure<T> {
    fn new(act: Act, n: usize) -> Self {
        Closure { act, k: 0, sum: T::mk(0.0, 0.0), last: T::mk(-9.0, 4.0), stop: n / 2 }
    }
    fn call(&mut self, x: &mut T) {
        let k = self.k;
        match self.act {
            Act::Look => {}
            Act::Number => *x = T::mk(k as f64 + 1.0, -(k as f64) - 0.5),
            Act::Running => {
                self.sum = self.sum.radd(*x);
                *x = self.sum;
            }
            Act::Map => *x = x.rmul(T::mk(2.0, 1.0)).radd(T::mk(1.0, 0.0)),
            Act::Shift => std::mem::swap(x, &mut self.last),
            Act::Some => {
                if k % 3 == 0 {
                    *x = T::mk(k as f64 + 0.25, 1.0)
                }
            }
            Act::Panic => {
                if k == self.stop {
                    panic!("closure")
                }
                *x = T::mk(k as f64 + 0.75, 2.0);
            }
        }
        self.k += 1;
    }
}

fn each<T: Sc>(c: &Each) -> Res {
    let mut model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let (sh, n) = (c.s.shape(), c.s.n());
    let what = c.s.describe();
    let mut res = Ok(());
    with_stored(&c.s, &mut buf, &mut |m| {
        res = (|| {
            for act in &c.acts {
                let first = m.ptr() as usize;
                let mut log: Vec<(usize, T)> = Vec::with_capacity(n);
                let mut f = Closure::<T>::new(*act, n);
                let panics = *act == Act::Panic && n > 0;
                let mut go = || {
                    m.for_each(&mut |x| {
                        log.push((x as *mut T as usize, *x));
                        if log.len() > n {
                            // far too many: do not run for ever
                            panic!("more calls than elements")
                        }
                        f.call(x)
                    })
                };
                if panics {
                    ensure!(refuses(go), "{what}: for_each swallowed the closure's panic");
                } else {
                    go();
                }
                let calls = if panics { n / 2 + 1 } else { n };
                ensure!(log.len() == calls, "{what}: the closure was called {} times, should be {calls}", log.len());
                let mut g = Closure::<T>::new(*act, n);
                for (i, (at, v)) in log.iter().enumerate() {
                    let (r, k) = sh.at(i);
                    let want = first + c.s.raw(r, k) * std::mem::size_of::<T>();
                    ensure!(*at == want, "{what}: call {i} got the item {} bytes from the start, element ({r},{k}) is at {}", *at as i128 - first as i128, want - first);
                    ensure!(v.same(model.at(r, k)), "{what}: call {i} saw {}, element ({r},{k}) is {}", show(*v), show(model.at(r, k)));
                    if panics && i == n / 2 {
                        break;
                    }
                    let mut x = model.at(r, k);
                    g.call(&mut x);
                    model.set(r, k, x);
                }
                model.check_view(m, n <= 100)?;
            }
            Ok(())
        })()
    });
    res?;
    model.check_buf(&buf)
}

// --- closures of the library's own generic function; parts of parents --------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Own {
    dim: (usize, usize),
    pad: (usize, usize),
    what: u8,
    fill: Fill,
}
fn owns() -> BoxedStrategy<Own> {
    (small_dims(), (0usize..3, 0usize..3), 0u8..7, fill()).prop_map(|(dim, pad, what, fill)| Own { dim, pad, what, fill }).boxed()
}
fn check_own(c: &Own, o: &mut Obs) -> Res {
    let ((r, k), (pr, pk)) = (c.dim, c.pad);
    if r * k > 1 {
        o.hit()
    }
    macro_rules! visit {
        ($m:expr, $name:expr, $at:expr) => {{
            o.label($name);
            let at: &dyn Fn(usize) -> (usize, usize) = &$at;
            let m = $m;
            let n = m.layout().number_of_elements();
            m.for_each(|x| *x = 0.0);
            // by value, by reference, and with captured state
            let mut i = 0u32;
            m.for_each(|x| {
                i += 1;
                *x += i as f64
            });
            ensure!(i as usize == n, "{}: {i} calls for {n} elements", $name);
            let mut seen = Vec::new();
            let mut f = |x: &mut f64| seen.push(*x);
            m.for_each(&mut f);
            ensure!(seen.len() == n && seen.iter().enumerate().all(|(i, v)| *v == i as f64 + 1.0), "{}: second visit saw {seen:?}", $name);
            for i in 0..n {
                let (a, b) = at(i);
                ensure!(m.get(a, b) == i as f64 + 1.0, "{} {:?}: element ({a},{b}) holds {}, it is number {i}", $name, m.dim(), m.get(a, b));
            }
        }};
    }
    let row = move |i: usize| (i / k, i % k);
    let col = move |i: usize| (i % r, i / r);
    match c.what {
        0 => visit!(&mut MatrixD::<f64, RowMajor>::zeros_from_dim(r, k), "row-major", row),
        1 => visit!(&mut MatrixD::<f64, ColumnMajor>::zeros_from_dim(r, k), "column-major", col),
        2 => {
            let sh = Shape { order: Order::Upper, rows: r, cols: r };
            visit!(&mut UpperTriangularMatrix::<f64>::zeros_from_dim(r, r), "upper-triangular", move |i| sh.at(i))
        }
        3 => visit!(&mut RowVectorD::<f64>::zeros_from_length(k), "row-vector", |i| (0, i)),
        4 => visit!(&mut ColumnVectorD::<f64>::zeros_from_length(r), "column-vector", |i| (i, 0)),
        // parts of a parent, whose rest stays as it is
        w => {
            let (tr, tk) = (r + pr + 2, k + pk + 1);
            let mut mem: Vec<f64> = fill_vec(c.fill, 0, tr * tk);
            let was = mem.clone();
            let (inside, row_major): (Vec<usize>, bool);
            if w == 5 {
                let mut p = SliceMatrixMut::<f64, ColumnMajor, Dynamic, Dynamic>::from_data(SliceContainerMut::new(&mut mem), ColumnMajor::new((tr, tk)));
                visit!(&mut p.block_mut((pr, pk), (r, k)), "block", col);
                row_major = false;
            } else {
                let mut p = SliceMatrixMut::<f64, RowMajor, Dynamic, Dynamic>::from_data(SliceContainerMut::new(&mut mem), RowMajor::new((tr, tk)));
                let mut q = p.split_in_four_mut((pr, pk));
                let (qr, qk) = (tr - pr, tk - pk);
                visit!(&mut q.3, "quadrant", move |i| (i / qk, i % qk));
                let _ = qr;
                row_major = true;
            }
            let (er, ek) = if row_major { (tr, tk) } else { (pr + r, pk + k) };
            inside = (pr..er).flat_map(|a| (pk..ek).map(move |b| (a, b))).map(|(a, b)| if row_major { a * tk + b } else { b * tr + a }).collect();
            for i in 0..mem.len() {
                ensure!(inside.contains(&i) || mem[i].same(was[i]), "visiting a part of the parent changed its item {i}, which lies outside the part");
            }
        }
    }
    Ok(())
}

pub fn c21() -> Vec<Sub> {
    vec![
        sub("histories", 120_000, 2_500_000, eachs, check_each),
        sub("large", 600, 6_000, eachs_big, check_each),
        sub("huge", 8, 300, eachs_huge, check_each),
        sub("closures", 120_000, 2_000_000, owns, check_own),
    ]
}
