//! C13: dot returns the product as a new matrix.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::any_ro;
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::mul::*;
use vh::scal::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DotCase {
    form: Form,
    a: MSpec,
    b: MSpec,
    /// operands that own their memory: 0 as specified, 1 left, 2 right, 3 both
    own: u8,
    /// B is A
    alias: bool,
    /// A and B lie in one buffer, B's first element this far from A's
    #[serde(default)]
    near: Option<i64>,
    fill: Fill,
    poke: u32,
}
type P = (usize, usize);

fn gen(d: BoxedStrategy<(P, P)>, exact: bool) -> BoxedStrategy<DotCase> {
    (form(), d, 0u8..4, 0u8..12, near_gen())
        .prop_flat_map(move |(form, (mut da, mut db), own, al, ng)| {
            match form {
                Form::MatVec => db.1 = 1,
                Form::VecMat => da.0 = 1,
                _ => {}
            }
            let alias = form == Form::MatMat && al == 0;
            if alias {
                let q = da.0.min(da.1).min(db.1);
                da = (q, q);
                db = da;
            }
            let f = if exact { int_fill() } else { float_fill() };
            let near = if al == 1 || al == 2 { Some(ng) } else { None };
            let own = if near.is_some() { 0 } else { own };
            (Just(form), operands(form, [da, db, (1, 1)]), Just(own), (Just(alias), Just(near)), f, any::<u32>())
        })
        .prop_map(|(form, (a, b, _), own, (alias, near), fill, poke)| {
            let mut b = if alias { a.clone() } else { b };
            let near = near.map(|g| g.place(form, &a, &mut b).delta);
            DotCase { form, a, b, own, alias, near, fill, poke }
        })
        .boxed()
}
fn fits(d: BoxedStrategy<(usize, usize, usize)>) -> BoxedStrategy<(P, P)> {
    d.prop_map(|(m, k, n)| ((m, k), (k, n))).boxed()
}
fn exact() -> BoxedStrategy<DotCase> {
    gen(fits(dims_mul()), true)
}
fn rounded() -> BoxedStrategy<DotCase> {
    gen(fits(dims_mul()), false)
}
fn big() -> BoxedStrategy<DotCase> {
    gen(fits(dims_mul_big()), true)
}
fn misfits() -> BoxedStrategy<DotCase> {
    let dim = || prop_oneof![6 => 1usize..=7, 1 => Just(0usize), 1 => 8usize..=20];
    let d = (dim(), dim(), dim(), dim(), 0u8..5, 0u32..150).prop_map(|(m, k, k2, n, how, far)| {
        let k2 = match how {
            0 => k + 1,
            1 if k > 0 => k - 1,
            // equal in the low bits
            4 => k + if far == 0 { 65536 } else { 256 << (far % 3) },
            // the outer dimensions match instead
            2 if m != k => m,
            _ if k2 != k => k2,
            _ => k + 2,
        };
        ((m, k), (k2, n))
    });
    gen(d.boxed(), false)
        .prop_map(|mut c| {
            c.near = None;
            let far = c.b.rows > 200;
            c.a.total += if far { 70_000 } else { 2000 };
            c.b.total += 2000;
            c
        })
        .boxed()
}

type T = f64;
type D = Dynamic;
type F = Fixed1;

/// A new matrix returned by dot, with its declared size types.
struct Out {
    v: Box<dyn Stored<T>>,
    len: Option<usize>,
}
fn mat(m: GenericBaseMatrix<T, RowMajor, VectorContainer<T>, D, D>) -> Out {
    Out { v: Box::new(m), len: None }
}
fn row(m: RowVectorD<T>) -> Out {
    Out { len: Some(m.length()), v: Box::new(m) }
}
fn col(m: ColumnVectorD<T>) -> Out {
    Out { len: Some(m.length()), v: Box::new(m) }
}
fn own_mat(s: &MSpec, m: &AnyRo<T>) -> MatrixD<T, ColumnMajor> {
    let mut r = MatrixD::<T, ColumnMajor>::zeros_from_dim(s.rows, s.cols);
    for i in 0..s.rows {
        for j in 0..s.cols {
            *r.get_mut(i, j) = m.view().rd(i, j);
        }
    }
    r
}

macro_rules! mats {
    ($c:expr, $bit:expr, $s:expr, $m:expr, $x:ident => $e:expr) => {
        if $c.own & $bit != 0 {
            let $x = &own_mat($s, &$m);
            $e
        } else {
            any_ro!(&$m, $x => $e)
        }
    };
}
macro_rules! vecs {
    ($c:expr, $bit:expr, $s:expr, $buf:expr, $own:ident, $RS:ty, $CS:ty, [$($k:ident => $L:ident),*], $x:ident => $e:expr) => {
        if $c.own & $bit != 0 {
            let mut v = $own::<T>::zeros_from_length($s.n());
            for i in 0..$s.n() {
                let (r, k) = $s.shape().at(i);
                *v.get1d_mut(i) = $buf[$s.pos(r, k)];
            }
            let $x = &v;
            $e
        } else {
            match $s.kind {
                $(Kind::$k => {
                    let $x = &SliceMatrix::<T, $L, $RS, $CS>::from_data(SliceContainer::new(&$buf[$s.off..$s.off + $s.clen]), $L::mk($s));
                    $e
                })*
                k => panic!("{k:?}"),
            }
        }
    };
}

fn run_dot(c: &DotCase, ab: &[T], bb: &[T]) -> Out {
    match c.form {
        Form::MatMat => {
            let a = AnyRo::new(&c.a, ab);
            if c.alias {
                return mats!(c, 1, &c.a, a, x => mat(x.dot(x)));
            }
            let b = AnyRo::new(&c.b, bb);
            mats!(c, 1, &c.a, a, x => mats!(c, 2, &c.b, b, y => mat(x.dot(y))))
        }
        Form::MatVec => {
            let a = AnyRo::new(&c.a, ab);
            vecs!(c, 2, &c.b, bb, ColumnVectorD, D, F,
                [CV => ColumnVector, SCV => ArbitraryStrideColumnVector, RM => RowMajor, SCM => ArbitraryStrideColumnMajor],
                y => mats!(c, 1, &c.a, a, x => col(x.dot(y))))
        }
        Form::VecMat => {
            let b = AnyRo::new(&c.b, bb);
            vecs!(c, 1, &c.a, ab, RowVectorD, F, D,
                [RV => RowVector, SRV => ArbitraryStrideRowVector, CM => ColumnMajor, SRM => ArbitraryStrideRowMajor],
                x => mats!(c, 2, &c.b, b, y => row(x.dot(y))))
        }
    }
}

fn describe(c: &DotCase) -> String {
    format!("dot {:?}, owned operands {}: A {}, B {}{}", c.form, c.own, c.a.describe(), c.b.describe(), if c.alias { " (the same matrix)".into() } else { c.near.map_or(String::new(), |d| format!(" (in one buffer, {d} items from A)")) })
}
fn labels(c: &DotCase, o: &mut Obs) {
    o.label(match c.form {
        Form::MatMat => "matrix-matrix",
        Form::MatVec => "matrix-column",
        Form::VecMat => "row-matrix",
    });
    o.label_if(c.a.cols == 0, "empty-inner-dimension");
    o.label_if(c.a.rows * c.b.cols == 0, "empty-result");
    o.label_if(c.alias, "same-matrix-twice");
    o.label_if(c.near.is_some(), "operands-in-one-buffer");
    o.label_if(c.own == 3, "owned");
    o.label_if(c.own == 0, "caller-memory");
    o.label_if(c.a.store == Store::Block || c.b.store == Store::Block, "blocks");
}

fn check(c: &DotCase, o: &mut Obs) -> Res {
    labels(c, o);
    let (m, k, n) = (c.a.rows, c.a.cols, c.b.cols);
    if m * n > 0 {
        o.hit()
    }
    let what = describe(c);
    let (ma, mb) = match c.near {
        Some(d) => near_models(&c.a, &c.b, d, c.fill),
        None => {
            let ma = Model::<T>::new(&c.a, c.fill, 0);
            let mb = if c.alias { ma.clone() } else { Model::<T>::new(&c.b, c.fill, 1) };
            (ma, mb)
        }
    };
    let (mut abuf, mut bbuf) = (ma.buf.clone(), mb.buf.clone());
    let (mut pa, mut pb) = (0, 0);
    if let Some(d) = c.near {
        abuf = near_join(&ma, &mb, d);
        bbuf = vec![];
        (pa, pb, _) = near_offsets(&c.a, &c.b, d);
    }
    let ab = &abuf[pa..pa + c.a.total];
    let bb = if c.near.is_some() { &abuf[pb..pb + c.b.total] } else { &bbuf[..] };
    let mut out = run_dot(c, ab, bb);
    let exact = matches!(c.fill, Fill::Ints(_));
    let sh = Shape { order: Order::Row, rows: m, cols: n };
    ensure!(out.v.dim() == (m, n), "{what}: dimension {:?}, should be {:?}", out.v.dim(), (m, n));
    ensure!(out.v.nelems() == m * n, "{what}: {} elements", out.v.nelems());
    if let Some(l) = out.len {
        ensure!(l == m * n, "{what}: length {l}, should be {}", m * n);
    }
    // an element's place in the result's order
    let idx = |i: usize, j: usize| if c.form == Form::MatVec { i } else { sh.idx(i, j) };
    let mut got = Vec::with_capacity(m * n);
    for i in 0..m {
        for j in 0..n {
            let v = out.v.rd(i, j);
            let w = reference::<T>(1.0, &|i, j| ma.at(i, j), &|i, j| mb.at(i, j), k, 0.0, 0.0, i, j);
            if let Some(e) = w.wrong(v, k, exact) {
                return fail(format!("{what}: element ({i},{j}) of the result is {e}"));
            }
            ensure!(v.same(out.v.get1(idx(i, j))), "{what}: element ({i},{j}) is {v:?} but linear element {} is {:?}", idx(i, j), out.v.get1(idx(i, j)));
            if k == 0 {
                ensure!(v == 0.0, "{what}: element ({i},{j}) of a product with empty inner dimension is {v:?}");
            }
            got.push(v);
        }
    }
    ma.check_buf(ab)?;
    mb.check_buf(bb)?;
    if m * n > 0 {
        // the result is new: writing it changes nothing else, and another product is unaffected
        let p = c.poke as usize % (m * n);
        *out.v.at1_mut(idx(p / n, p % n)) = 12345.5;
        ma.check_buf(ab)?;
        mb.check_buf(bb)?;
        let again = run_dot(c, ab, bb);
        for q in 0..m * n {
            let v = again.v.rd(q / n, q % n);
            ensure!(!exact || v == got[q], "{what}: computed again, element ({},{}) is {v:?} instead of {:?}", q / n, q % n, got[q]);
            let w = out.v.rd(q / n, q % n);
            ensure!(if q == p { w == 12345.5 } else { w.same(got[q]) }, "{what}: after writing element {p} of the result, element {q} is {w:?}");
        }
    }
    Ok(())
}

fn check_misfit(c: &DotCase, o: &mut Obs) -> Res {
    if c.a.cols == c.b.rows {
        return Ok(());
    }
    o.hit();
    labels(c, o);
    let ma = Model::<T>::new(&c.a, c.fill, 0);
    let mb = Model::<T>::new(&c.b, c.fill, 1);
    let (ab, bb) = (ma.buf.clone(), mb.buf.clone());
    ensure!(refuses(|| run_dot(c, &ab, &bb)), "{}: different inner dimensions were accepted", describe(c));
    ma.check_buf(&ab)?;
    mb.check_buf(&bb)
}

pub fn c13() -> Vec<Sub> {
    vec![
        sub("exact", 80_000, 1_500_000, exact, check),
        sub("rounded", 40_000, 800_000, rounded, check),
        sub("large", 1_200, 8_000, big, check),
        sub("refusals", 40_000, 600_000, misfits, check_misfit),
    ]
}
