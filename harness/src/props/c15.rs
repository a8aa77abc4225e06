//! C15: constructors and creation macros.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ctor {
    DynRM,
    DynCM,
    DynUT,
    DynRV,
    DynCV,
    RowLen,
    RowDim,
    ColLen,
    ColDim,
    MatDefault,
    MatRow,
    MatCol,
    VecDefault,
    VecCol,
    VecRow,
    RandMatDefault,
    RandMatRow,
    RandMatCol,
    RandVecDefault,
    RandVecCol,
    RandVecRow,
    Fixed(u8),
    BaseRow,
}
use Ctor::*;
const CTORS: [Ctor; 22] = [
    DynRM, DynCM, DynUT, DynRV, DynCV, RowLen, RowDim, ColLen, ColDim, MatDefault, MatRow, MatCol, VecDefault, VecCol, VecRow,
    RandMatDefault, RandMatRow, RandMatCol, RandVecDefault, RandVecCol, RandVecRow, BaseRow,
];
const FIXED_ROW: [(usize, usize); 6] = FIXED;

impl Ctor {
    fn random(self) -> bool {
        matches!(self, RandMatDefault | RandMatRow | RandMatCol | RandVecDefault | RandVecCol | RandVecRow)
    }
    /// the logical shape made from the request, or None if it must be refused
    fn shape(self, (r, c): (usize, usize)) -> Option<Shape> {
        let s = |order, rows, cols| Some(Shape { order, rows, cols });
        match self {
            DynRM | MatDefault | MatRow | RandMatDefault | RandMatRow => s(Order::Row, r, c),
            DynCM | MatCol | RandMatCol => s(Order::Col, r, c),
            DynUT => (r == c).then_some(Shape { order: Order::Upper, rows: r, cols: c }),
            DynRV | RowDim => (r == 1).then_some(Shape { order: Order::Row, rows: r, cols: c }),
            DynCV | ColDim => (c == 1).then_some(Shape { order: Order::Col, rows: r, cols: c }),
            RowLen | VecRow | RandVecRow | BaseRow => s(Order::Row, 1, r),
            ColLen | VecDefault | VecCol | RandVecDefault | RandVecCol => s(Order::Col, r, 1),
            Fixed(i) => {
                if i < 6 {
                    s(Order::Row, FIXED_ROW[i as usize].0, FIXED_ROW[i as usize].1)
                } else if i < 12 {
                    s(Order::Col, FIXED_ROW[i as usize - 6].0, FIXED_ROW[i as usize - 6].1)
                } else if i < 14 {
                    s(Order::Row, 1, i as usize - 10)
                } else {
                    s(Order::Col, i as usize - 12, 1)
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct New {
    ty: Ty,
    ctor: Ctor,
    dim: (usize, usize),
    poke: u32,
    fill: Fill,
}
fn ctor() -> BoxedStrategy<Ctor> {
    prop_oneof![4 => prop::sample::select(CTORS.to_vec()), 1 => (0u8..16).prop_map(Fixed)].boxed()
}
fn news() -> BoxedStrategy<New> {
    let d = prop_oneof![
        6 => dims(),
        3 => small_dims(),
        2 => dim1().prop_map(|n| (n, n)),
        3 => dim1().prop_map(|n| (1, n)),
        3 => dim1().prop_map(|n| (n, 1)),
        1 => (0usize..=2, 0usize..=2),
        1 => any::<usize>().prop_map(|n| (0, n)),
    ];
    (ty(), ctor(), d, any::<u32>(), fill()).prop_map(|(ty, ctor, dim, poke, fill)| New { ty, ctor, dim, poke, fill }).boxed()
}
fn news_big() -> BoxedStrategy<New> {
    (ty(), prop::sample::select(CTORS.to_vec()), big_dims(), any::<u32>(), fill())
        .prop_map(|(ty, ctor, (r, c), poke, fill)| {
            let dim = match ctor {
                DynUT => (r.min(400), r.min(400)),
                DynRV | RowDim => (1, c.max(r)),
                DynCV | ColDim => (r.max(c), 1),
                _ => (r, c),
            };
            New { ty, ctor, dim, poke, fill }
        })
        .boxed()
}
fn news_huge() -> BoxedStrategy<New> {
    (ty(), prop::sample::select(CTORS.to_vec()), huge_dims(), any::<u32>(), fill())
        .prop_map(|(ty, ctor, (r, c), poke, fill)| {
            let dim = match ctor {
                DynUT => (r.min(400), r.min(400)),
                DynRV | RowDim => (1, c.max(r)),
                DynCV | ColDim => (r.max(c), 1),
                _ => (r, c),
            };
            New { ty, ctor, dim, poke, fill }
        })
        .boxed()
}

type Made<T> = (Box<dyn Stored<T>>, Option<usize>);

macro_rules! fixed {
    ($T:ty, $i:expr, $(($n:literal: $L:ident, $R:ident, $C:ident, $N:literal, $f:ident)),*) => {
        match $i {
            $($n => (Box::new(Matrix::<$T, householder::base_matrix::BaseMatrix<$T, ArrayContainer<$T, $N>, $L, $R, $C>, $L, $R, $C>::$f()) as Box<dyn Stored<$T>>, None),)*
            i => panic!("no fixed type {i}"),
        }
    };
}

macro_rules! make {
    ($T:ident, $c:expr, $d:expr) => {{
        let d: (usize, usize) = $d;
        let made: Made<$T> = match $c {
            DynRM => (Box::new(MatrixD::<$T, RowMajor>::zeros_from_dim(d.0, d.1)), None),
            DynCM => (Box::new(MatrixD::<$T, ColumnMajor>::zeros_from_dim(d.0, d.1)), None),
            DynUT => (Box::new(UpperTriangularMatrix::<$T>::zeros_from_dim(d.0, d.1)), None),
            DynRV => (Box::new(MatrixD::<$T, RowVector>::zeros_from_dim(d.0, d.1)), None),
            DynCV => (Box::new(MatrixD::<$T, ColumnVector>::zeros_from_dim(d.0, d.1)), None),
            RowLen => { let m = RowVectorD::<$T>::zeros_from_length(d.0); let l = m.length(); (Box::new(m), Some(l)) }
            RowDim => { let m = RowVectorD::<$T>::zeros_from_dim(d.0, d.1); let l = m.length(); (Box::new(m), Some(l)) }
            ColLen => { let m = ColumnVectorD::<$T>::zeros_from_length(d.0); let l = m.length(); (Box::new(m), Some(l)) }
            ColDim => { let m = ColumnVectorD::<$T>::zeros_from_dim(d.0, d.1); let l = m.length(); (Box::new(m), Some(l)) }
            MatDefault => (Box::new(mat![$T, d]), None),
            MatRow => (Box::new(mat![$T, d, RowMajor]), None),
            MatCol => (Box::new(mat![$T, d, ColumnMajor]), None),
            VecDefault => { let m = vector![$T, d.0]; let l = m.length(); (Box::new(m), Some(l)) }
            VecCol => { let m = vector![$T, d.0, ColumnVector]; let l = m.length(); (Box::new(m), Some(l)) }
            VecRow => { let m = vector![$T, d.0, RowVector]; let l = m.length(); (Box::new(m), Some(l)) }
            RandMatDefault => (Box::new(rand_mat![$T, d]), None),
            RandMatRow => (Box::new(rand_mat![$T, d, RowMajor]), None),
            RandMatCol => (Box::new(rand_mat![$T, d, ColumnMajor]), None),
            RandVecDefault => { let m = rand_vector![$T, d.0]; let l = m.length(); (Box::new(m), Some(l)) }
            RandVecCol => { let m = rand_vector![$T, d.0, ColumnVector]; let l = m.length(); (Box::new(m), Some(l)) }
            RandVecRow => { let m = rand_vector![$T, d.0, RowVector]; let l = m.length(); (Box::new(m), Some(l)) }
            BaseRow => {
                let b = householder::base_matrix::BaseMatrix::<$T, _, RowVector, Fixed1, Dynamic>::new(VectorContainer::<$T>::new(d.0), RowVector::new(d.0));
                let l = b.length();
                (Box::new(Matrix::<$T, _, RowVector, Fixed1, Dynamic>::new(b)), Some(l))
            }
            Fixed(i) => fixed!($T, i,
                (0: RowMajor, Fixed2, Fixed2, 4, zeros_from_dim), (1: RowMajor, Fixed1, Fixed2, 2, zeros_from_dim),
                (2: RowMajor, Fixed3, Fixed3, 9, zeros_from_dim), (3: RowMajor, Fixed1, Fixed3, 3, zeros_from_dim),
                (4: RowMajor, Fixed2, Fixed3, 6, zeros_from_dim), (5: RowMajor, Fixed3, Fixed2, 6, zeros_from_dim),
                (6: ColumnMajor, Fixed2, Fixed2, 4, zeros_from_dim), (7: ColumnMajor, Fixed1, Fixed2, 2, zeros_from_dim),
                (8: ColumnMajor, Fixed3, Fixed3, 9, zeros_from_dim), (9: ColumnMajor, Fixed1, Fixed3, 3, zeros_from_dim),
                (10: ColumnMajor, Fixed2, Fixed3, 6, zeros_from_dim), (11: ColumnMajor, Fixed3, Fixed2, 6, zeros_from_dim),
                (12: RowVector, Fixed1, Fixed2, 2, zeros_from_length), (13: RowVector, Fixed1, Fixed3, 3, zeros_from_length),
                (14: ColumnVector, Fixed2, Fixed1, 2, zeros_from_length), (15: ColumnVector, Fixed3, Fixed1, 3, zeros_from_length)),
        };
        made
    }};
}

fn check(c: &New, o: &mut Obs) -> Res {
    o.label(match c.ctor {
        Fixed(_) => "fixed-size",
        DynUT => "upper-triangular",
        c if c.random() => "random",
        MatDefault | MatRow | MatCol | VecDefault | VecCol | VecRow => "macro",
        _ => "constructor",
    });
    let Some(sh) = c.ctor.shape(c.dim) else {
        o.label("must-be-refused");
        o.hit();
        with_ty!(c.ty, T => {
            let r = refuses(|| { let _ = make!(T, c.ctor, c.dim); });
            ensure!(r, "{:?} with dimension {:?} was accepted", c.ctor, c.dim);
        });
        return Ok(());
    };
    if sh.n() > 0 {
        o.hit();
        if sh.rows != sh.cols {
            o.label("rows-differ-from-columns");
        }
    } else {
        o.label("empty");
    }
    with_ty!(c.ty, T => {
        let make = || make!(T, c.ctor, c.dim);
        shape_and_zeros::<T>(c, sh, &make)
    })
}

fn shape_and_zeros<T: Sc>(c: &New, sh: Shape, make: &dyn Fn() -> Made<T>) -> Res {
    let what = format!("{:?} with dimension {:?} of {:?}", c.ctor, c.dim, c.ty);
    let zero = T::mk(0.0, 0.0);
    let n = sh.n();
    let examine = |m: &Made<T>, when: &str| -> Res {
        let v = &m.0;
        ensure!(v.dim() == (sh.rows, sh.cols), "{what}{when}: dimension {:?}, should be {:?}", v.dim(), (sh.rows, sh.cols));
        ensure!(v.nelems() == n, "{what}{when}: {} elements, should be {n}", v.nelems());
        if let Some(l) = m.1 {
            ensure!(l == n, "{what}{when}: length {l}, should be {n}");
        }
        let (rs, cs) = v.size_ns();
        ensure!((rs == 0 || rs == sh.rows) && (cs == 0 || cs == sh.cols), "{what}: type says {rs}x{cs}");
        if !c.ctor.random() {
            for i in 0..n {
                let (r, k) = sh.at(i);
                for (x, path) in [(v.rd(r, k), "get"), (v.get1(i), "get1d")] {
                    ensure!(x == zero, "{what}{when}: {path} of element ({r},{k}) is {}, should be zero", show(x));
                }
            }
            if n > 0 {
                let s = v.slice(0, n);
                ensure!(s.len() == n && s.iter().all(|x| *x == zero), "{what}{when}: storage is not all zero");
            }
        } else {
            for i in 0..n {
                let (r, k) = sh.at(i);
                let x = v.rd(r, k);
                ensure!(x.same(v.get1(i)), "{what}: element ({r},{k}) reads {} and {}", show(x), show(v.get1(i)));
                let (a, b) = x.parts();
                ensure!(a.is_finite() && b.is_finite(), "{what}: random element ({r},{k}) is {}", show(x));
            }
        }
        Ok(())
    };
    let mut a = make();
    examine(&a, "")?;
    let b = make();
    examine(&b, " (second)")?;
    let old: Vec<T> = (0..n).map(|i| b.0.get1(i)).collect();
    if n > 0 {
        // write one element, then all of them, of the first: the second keeps its contents
        let p = c.poke as usize % n;
        *a.0.at1_mut(p) = T::mk(3.0, -4.0);
        for i in 0..n {
            let want = if i == p { T::mk(3.0, -4.0) } else if c.ctor.random() { a.0.get1(i) } else { zero };
            ensure!(a.0.get1(i) == want, "{what}: after writing element {p}, element {i} is {}", show(a.0.get1(i)));
        }
        for i in 0..n {
            *a.0.at1_mut(i) = elem(c.fill, 1, i);
        }
        for i in 0..n {
            let (r, k) = sh.at(i);
            let (x, y) = (a.0.get1(i), a.0.rd(r, k));
            ensure!(x.same(elem(c.fill, 1, i)) && y.same(x), "{what}: element {i} ({r},{k}) does not hold what was written: {}, {}", show(x), show(y));
            ensure!(b.0.get1(i).same(old[i]), "{what}: writing one matrix changed element {i} of another");
        }
        examine(&make(), " (made after writing another)")?;
    }
    Ok(())
}

// --- layouts -----------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lay {
    which: u8,
    dim: (usize, usize),
}
fn lays() -> BoxedStrategy<Lay> {
    let n = || prop_oneof![4 => 0usize..=4, 2 => 0usize..=300, 1 => (0u32..32).prop_map(|b| 1usize << b), 1 => 0usize..=u32::MAX as usize];
    let d = prop_oneof![3 => (n(), n()), 1 => n().prop_map(|n| (n, n)), 1 => n().prop_map(|n| (1, n)), 1 => n().prop_map(|n| (n, 1))];
    (0u8..7, d).prop_map(|(which, dim)| Lay { which, dim }).boxed()
}
fn check_lay(c: &Lay, o: &mut Obs) -> Res {
    let (r, k) = c.dim;
    let seen = |l: (usize, usize), n: usize, want: (usize, usize), count: usize| -> Res {
        ensure!(l == want && n == count, "layout {} from {:?}: dimension {l:?} with {n} elements, should be {want:?} with {count}", c.which, c.dim);
        Ok(())
    };
    let ok = match c.which {
        2 => r == 1,
        3 => k == 1,
        4 => r == k,
        _ => true,
    };
    o.hit();
    if !ok {
        o.label("must-be-refused");
        let refused = match c.which {
            2 => refuses(|| RowVector::from_dimension(c.dim)),
            3 => refuses(|| ColumnVector::from_dimension(c.dim)),
            _ => refuses(|| UpperTriangular::from_dimension(c.dim)),
        };
        ensure!(refused, "layout {} (2 row vector, 3 column vector, 4 upper triangular) was made with dimension {:?}", c.which, c.dim);
        return Ok(());
    }
    macro_rules! go {
        ($l:expr, $want:expr, $n:expr) => {{
            let l = $l;
            seen(l.dim(), l.number_of_elements(), $want, $n)?;
            let il = l.index_layout();
            seen(il.dim(), il.number_of_elements(), $want, $n)
        }};
    }
    match c.which {
        0 => go!(RowMajor::from_dimension(c.dim), (r, k), r * k),
        1 => go!(ColumnMajor::from_dimension(c.dim), (r, k), r * k),
        2 => go!(RowVector::from_dimension(c.dim), (1, k), k),
        3 => go!(ColumnVector::from_dimension(c.dim), (r, 1), r),
        4 => go!(UpperTriangular::from_dimension(c.dim), (r, r), (r as u128 * (r as u128 + 1) / 2) as usize),
        5 => go!(RowVector::from_length(r), (1, r), r),
        _ => go!(ColumnVector::from_length(r), (r, 1), r),
    }
}

pub fn c15() -> Vec<Sub> {
    vec![
        sub("constructors", 100_000, 1_500_000, news, check),
        sub("constructors_large", 800, 4_000, news_big, check),
        sub("constructors_huge", 8, 300, news_huge, check),
        sub("layouts", 100_000, 1_000_000, lays, check_lay),
    ]
}
