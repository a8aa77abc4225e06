//! C11: C <- alpha*A*B + beta*C.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::mats::*;
use vh::mul::*;
use vh::scal::*;
use vh::with_ty;

fn exact() -> BoxedStrategy<Prod> {
    prods(dims_mul(), true)
}
fn rounded() -> BoxedStrategy<Prod> {
    prods(dims_mul(), false)
}
fn big() -> BoxedStrategy<Prod> {
    prop_oneof![2 => prods(dims_mul_big(), true), 1 => prods(dims_mul_big(), false)].boxed()
}

pub fn labels(p: &Prod, o: &mut Obs) {
    if p.c.n() > 0 {
        o.hit()
    }
    o.label(match p.form {
        Form::MatMat => "matrix-matrix",
        Form::MatVec => "matrix-column",
        Form::VecMat => "row-matrix",
    });
    o.label(match p.ty {
        Ty::F32 => "f32",
        Ty::F64 => "f64",
        Ty::C32 => "c32",
        Ty::C64 => "c64",
    });
    o.label_if(p.alias, "same-matrix-twice");
    if let Some(n) = p.near {
        o.label("operands-in-one-buffer");
        let (x, y) = (p.a.extent() as i64, p.b.extent() as i64);
        o.label_if(n.delta < x && n.delta > -y, "operands-interleaved-or-overlapping");
        o.label_if(n.delta == 0 && (p.b.sr, p.b.sc) == (p.a.sc, p.a.sr), "operand-times-its-transpose");
    }
    o.label_if(p.a.cols == 0, "empty-inner-dimension");
    o.label_if(p.c.n() == 0, "empty-result");
    o.label_if(!p.a.injective() || !p.b.injective(), "operand-with-repeated-elements");
    o.label_if([&p.a, &p.b, &p.c].iter().any(|s| s.store == Store::Block), "blocks");
    o.label_if(p.alpha == Fac::Zero, "alpha-zero");
    o.label_if(p.beta == Fac::Zero, "beta-zero");
    o.label_if(p.exact(), "exact-arithmetic");
    o.label_if(p.a.rows * p.a.cols * p.b.cols > 100_000, "large");
    let k = [p.a.kind, p.b.kind, p.c.kind];
    o.label_if(k[0] != k[1] || k[1] != k[2], "mixed-storage");
    o.label_if(k.iter().all(|k| matches!(k, Kind::SRM | Kind::SCM | Kind::SRV | Kind::SCV)), "all-strided");
}

fn check(p: &Prod, o: &mut Obs) -> Res {
    labels(p, o);
    with_ty!(p.ty, T => {
        let m = models::<T>(p);
        let bufs = execute(p, &m);
        check_values(p, &m, &bufs[2])
    })
}

// --- matrices that own their memory ----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Own {
    ty: Ty,
    form: Form,
    d: (usize, usize, usize),
    /// storage order per operand (bit i: operand i is column major); fixed-size containers (form MatMat, 2x3*3x2)
    cols: u8,
    arr: bool,
    fill: Fill,
    cfill: Fill,
    alpha: Fac,
    beta: Fac,
}
fn owned() -> BoxedStrategy<Own> {
    (ty(), form(), dims_mul(), 0u8..8, any::<bool>(), int_fill(), int_fill(), fac(), fac())
        .prop_map(|(ty, form, d, cols, arr, fill, cfill, alpha, beta)| Own { ty, form, d, cols, arr, fill, cfill, alpha, beta })
        .boxed()
}
fn put<T: Sc>(m: &mut dyn Stored<T>, f: Fill, salt: u64) -> Vec<Vec<T>> {
    let (r, c) = m.dim();
    let mut v = vec![vec![T::mk(0.0, 0.0); c]; r];
    for i in 0..r {
        for j in 0..c {
            v[i][j] = elem(f, salt, i * c + j);
            *m.at_mut(i, j) = v[i][j];
        }
    }
    v
}
fn check_own(c: &Own, o: &mut Obs) -> Res {
    with_ty!(c.ty, T => own::<T>(c, o))
}
fn own<T: Sc>(c: &Own, o: &mut Obs) -> Res {
    type Arr<T, L, const N: usize> = GenericBaseMatrixMut<T, L, ArrayContainer<T, N>, Dynamic, Dynamic>;
    let (mut m, mut k, mut n) = c.d;
    match c.form {
        Form::MatVec => n = 1,
        Form::VecMat => m = 1,
        _ => {}
    }
    let arr = c.arr && c.form == Form::MatMat;
    if arr {
        m = m % 7 + 1;
        k = k % 7 + 1;
        n = n % 7 + 1;
    }
    if m * n > 0 {
        o.hit()
    }
    o.label(if arr { "array-containers" } else { "vector-containers" });
    let (alpha, beta): (T, T) = (c.alpha.value(), c.beta.value());
    macro_rules! go {
        ($f:ident, $a:expr, $b:expr, $c:expr) => {{
            let (mut a, mut b, mut r) = ($a, $b, $c);
            let (av, bv, cv) = (put(&mut a, c.fill, 0), put(&mut b, c.fill, 1), put(&mut r, c.cfill, 2));
            T::$f(alpha, &a, &b, beta, &mut r);
            for (v, want, what) in [(&a as &dyn View<T>, &av, "A"), (&b, &bv, "B")] {
                let sh = Shape { order: Order::Row, rows: want.len(), cols: v.dim().1 };
                for i in 0..sh.rows {
                    for j in 0..sh.cols {
                        vh::ensure!(v.rd(i, j).same(want[i][j]), "{c:?}: operand {what} changed at ({i},{j})");
                    }
                }
            }
            for i in 0..m {
                for j in 0..n {
                    let w = reference(alpha, &|i, j| av[i][j], &|i, j| bv[i][j], k, beta, cv[i][j], i, j);
                    if let Some(e) = w.wrong(r.rd(i, j), k, true) {
                        return fail(format!("{c:?}: element ({i},{j}) of the result is {e}"));
                    }
                }
            }
            Ok(())
        }};
    }
    macro_rules! orders {
        ($x:expr, $d:expr, $bit:expr, $M:ident, $v:ident => $e:expr) => {
            if c.cols >> $bit & 1 == 0 {
                let $v = mk_own!($M, T, RowMajor, $d);
                $e
            } else {
                let $v = mk_own!($M, T, ColumnMajor, $d);
                $e
            }
        };
    }
    macro_rules! mk_own {
        (vec, $T:ident, $L:ident, $d:expr) => {
            MatrixD::<$T, $L>::zeros_from_dim($d.0, $d.1)
        };
        (arr, $T:ident, $L:ident, $d:expr) => {
            Arr::<$T, $L, 49>::from_data(ArrayContainer::new(), $L::new($d))
        };
    }
    match c.form {
        Form::MatMat if arr => orders!(a, (m, k), 0, arr, a => orders!(b, (k, n), 1, arr, b => orders!(r, (m, n), 2, arr, r => go!(mm, a, b, r)))),
        Form::MatMat => orders!(a, (m, k), 0, vec, a => orders!(b, (k, n), 1, vec, b => orders!(r, (m, n), 2, vec, r => go!(mm, a, b, r)))),
        Form::MatVec => orders!(a, (m, k), 0, vec, a => go!(mv, a, ColumnVectorD::<T>::zeros_from_length(k), ColumnVectorD::<T>::zeros_from_length(m))),
        Form::VecMat => orders!(b, (k, n), 1, vec, b => go!(vm, RowVectorD::<T>::zeros_from_length(k), b, RowVectorD::<T>::zeros_from_length(n))),
    }
}

pub fn c11() -> Vec<Sub> {
    vec![
        sub("exact", 80_000, 1_500_000, exact, check),
        sub("rounded", 40_000, 800_000, rounded, check),
        sub("owned", 24_000, 400_000, owned, check_own),
        sub("large", 1_600, 12_000, big, check),
    ]
}
