//! C22: references and user-supplied implementations.
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::shapes;
use vh::user::UserMat;
use vh::{with_shape, with_ty};

type P = (usize, usize);

// --- wrappers of stored matrices ---------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    depth: usize,
    sf: Fill,
    form: usize,
}
fn shareds() -> BoxedStrategy<Shared> {
    gen_shareds(prop_oneof![2 => small_dims(), 1 => dims()].boxed())
}
fn shareds_big() -> BoxedStrategy<Shared> {
    gen_shareds(big_dims())
}
fn shareds_huge() -> BoxedStrategy<Shared> {
    gen_shareds(huge_dims())
}
fn gen_shareds(d: BoxedStrategy<P>) -> BoxedStrategy<Shared> {
    (ty(), spec_kinds(&ALL_KINDS, d, ANY).prop_filter("algebra is compiled", alg_fixed), fill(), 1usize..=3, fill(), 0usize..20)
        .prop_map(|(ty, s, fill, depth, sf, form)| Shared { ty, s, fill, depth, sf, form })
        .boxed()
}
/// What the layout of a wrapper says equals what the layout of the wrapped matrix says.
fn layout_of<T: Sc>(a: &dyn View<T>, b: &dyn View<T>, s: &MSpec, what: &str) -> Res {
    ensure!(a.dim() == b.dim() && a.nelems() == b.nelems() && a.size_ns() == b.size_ns(), "{what}: dimension, element count or size type differs from the wrapped matrix's");
    if s.kind != Kind::UT {
        ensure!(a.stride() == b.stride(), "{what}: stride {:?}, the wrapped matrix has {:?}", a.stride(), b.stride());
    }
    for i in 0..s.n().min(40) {
        let (r, c) = s.shape().at(i);
        ensure!(a.c12(i) == b.c12(i) && a.c21(r, c) == b.c21(r, c), "{what}: layout differs from the wrapped matrix's at element {i}");
    }
    Ok(())
}
fn check_shared(c: &Shared, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    o.label(["", "one-reference", "two-references", "three-references"][c.depth]);
    if c.s.n() > 1 {
        o.hit()
    }
    with_ty!(c.ty, T => shared::<T>(c))
}
fn shared<T: Sc>(c: &Shared) -> Res {
    let model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let what = format!("{} shared references to {}", c.depth, c.s.describe());
    let full = c.s.n() <= 300;
    let mut res = Ok(());
    with_alg::<T>(&c.s, &mut buf, &mut |m| {
        res = (|| {
            let mut r = Ok(());
            m.wrap(c.depth, &mut |v| r = model.check_view(v, full).and_then(|_| layout_of(v, m, &c.s, &what)));
            r?;
            // sums and scalar products over wrappers are those of the matrix
            let s: T = elem(c.sf, 6, c.form);
            let mut r = Ok(());
            m.scaled(s, c.form, &mut |v| r = check_view(v, c.s.shape(), &format!("scalar product {} over {what}", c.form % 5), false, &|a, b| s.rmul(model.at(a, b))));
            r?;
            let mut r = Ok(());
            m.doubled(c.form, &mut |v| r = check_view(v, c.s.shape(), &format!("sum {} over {what}", c.form % 4), false, &|a, b| model.at(a, b).radd(model.at(a, b))));
            r?;
            model.check_view(m, false)
        })()
    });
    res?;
    if DYN_KINDS.contains(&c.s.kind) {
        let mut res = Ok(());
        with_dyn::<T>(&c.s, &mut buf, &mut |m| {
            let e = m.eval_wrapped(c.depth);
            res = check_view(&*e, c.s.shape(), &format!("evaluated {what}"), full, &|a, b| model.at(a, b));
        });
        res?;
    }
    model.check_buf(&buf)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Muts {
    ty: Ty,
    s: MSpec,
    fill: Fill,
    /// per step: wrapper depth (0: a direct write), and writes by (element, path)
    steps: Vec<(usize, Vec<(u32, u8)>)>,
}
fn muts() -> BoxedStrategy<Muts> {
    gen_muts(prop_oneof![3 => small_dims(), 1 => dims()].boxed())
}
fn muts_big() -> BoxedStrategy<Muts> {
    gen_muts(big_dims())
}
fn muts_huge() -> BoxedStrategy<Muts> {
    gen_muts(huge_dims())
}
fn gen_muts(d: BoxedStrategy<P>) -> BoxedStrategy<Muts> {
    (ty(), spec_kinds(&ALL_KINDS, d, INJ), fill(), prop::collection::vec((0usize..=4, prop::collection::vec((any::<u32>(), 0u8..4), 0..5)), 1..5))
        .prop_map(|(ty, s, fill, steps)| Muts { ty, s, fill, steps })
        .boxed()
}
fn check_muts(c: &Muts, o: &mut Obs) -> Res {
    label_spec(&c.s, o);
    o.label_if(c.steps.iter().any(|s| s.0 == 2 || s.0 == 3), "nested-mutable-references");
    o.label_if(c.steps.iter().any(|s| s.0 == 4), "shared-reference-to-mutable-one");
    if c.s.n() > 1 && c.steps.iter().any(|s| s.0 > 0) {
        o.hit()
    }
    with_ty!(c.ty, T => do_muts::<T>(c))
}
fn write<T: Sc>(m: &mut dyn ViewMut<T>, model: &mut Model<T>, at: u32, path: u8, v: T) -> Res {
    let n = model.spec.n();
    if n == 0 {
        return Ok(());
    }
    let i = at as usize % n;
    let (r, c) = model.spec.shape().at(i);
    let p = match path {
        0 => m.at_mut(r, c),
        1 => m.at1_mut(i),
        2 => unsafe { m.atu_mut(r, c) },
        _ => unsafe { m.atu1_mut(i) },
    };
    ensure!(p.same(model.at(r, c)), "{}: mutable access {path} to ({r},{c}) shows {}, should be {}", model.spec.describe(), show(*p), show(model.at(r, c)));
    *p = v;
    model.set(r, c, v);
    Ok(())
}
fn do_muts<T: Sc>(c: &Muts) -> Res {
    let mut model = Model::<T>::new(&c.s, c.fill, 0);
    let mut buf = model.buf.clone();
    let full = c.s.n() <= 100;
    let mut res = Ok(());
    with_stored::<T>(&c.s, &mut buf, &mut |m| {
        res = (|| {
            let mut k = 0;
            for (depth, ws) in &c.steps {
                let mut r = Ok(());
                if *depth == 4 {
                    m.wrap_both(&mut |v| r = model.check_view(v, full));
                    r?;
                    continue;
                }
                m.wrap_mut(*depth, &mut |v| {
                    r = (|| {
                        model.check_view(v, full)?;
                        for (at, path) in ws {
                            k += 1;
                            write(v, &mut model, *at, *path, elem(c.fill, 3, k))?;
                        }
                        model.check_view(v, full)
                    })()
                });
                r?;
                model.check_view(m, full)?;
            }
            Ok(())
        })()
    });
    res?;
    model.check_buf(&buf)
}

// --- user-supplied layouts and implementations ---------------------------------------------------------------------

/// A user's own index order: rows alternately forwards and backwards; stored rotated by `rot` positions.
#[derive(Clone)]
pub struct Snake {
    dim: P,
    rot: usize,
}
impl Snake {
    fn n(&self) -> usize {
        self.dim.0 * self.dim.1
    }
}
impl LayoutType for Snake {
    type IndexLayout = Snake;
    fn dim(&self) -> P {
        self.dim
    }
    fn stride(&self) -> P {
        (41, 43)
    }
    fn number_of_elements(&self) -> usize {
        self.n()
    }
    fn convert_1d_2d(&self, i: usize) -> P {
        let (r, c) = (i / self.dim.1, i % self.dim.1);
        (r, if r % 2 == 0 { c } else { self.dim.1 - 1 - c })
    }
    fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
        r * self.dim.1 + if r % 2 == 0 { c } else { self.dim.1 - 1 - c }
    }
    fn convert_1d_raw(&self, i: usize) -> usize {
        (i + self.rot) % self.n()
    }
    fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
        self.convert_1d_raw(self.convert_2d_1d(r, c))
    }
    fn index_layout(&self) -> Snake {
        Snake { dim: self.dim, rot: 0 }
    }
}
impl BaseLayoutType for Snake {
    fn from_dimension(dim: P) -> Self {
        Snake { dim, rot: 0 }
    }
}
impl MatrixBaseLayoutType for Snake {}

/// A user's storage order behind a library index order: positions counted from the end.
#[derive(Clone)]
pub struct Back<B: Copy>(P, B);
macro_rules! back {
    ($B:ident, $B0:ty, $rc:expr, $i:expr) => {
        impl LayoutType for Back<$B0> {
            type IndexLayout = $B;
            fn dim(&self) -> P {
                self.0
            }
            fn stride(&self) -> P {
                (47, 53)
            }
            fn number_of_elements(&self) -> usize {
                self.0 .0 * self.0 .1
            }
            fn convert_1d_2d(&self, i: usize) -> P {
                let f: fn(usize, P) -> P = $rc;
                f(i, self.0)
            }
            fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
                let f: fn(usize, usize, P) -> usize = $i;
                f(r, c, self.0)
            }
            fn convert_1d_raw(&self, i: usize) -> usize {
                self.number_of_elements() - 1 - i
            }
            fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
                self.convert_1d_raw(self.convert_2d_1d(r, c))
            }
            fn index_layout(&self) -> $B {
                $B::new(self.0)
            }
        }
    };
}
type BackRow = Back<u8>;
type BackCol = Back<i8>;
back!(RowMajor, u8, |i, d| (i / d.1, i % d.1), |r, c, d| r * d.1 + c);
back!(ColumnMajor, i8, |i, d| (i % d.0, i / d.0), |r, c, d| c * d.0 + r);

/// An implementation without storage: elements are computed.
struct Formula<L> {
    layout: L,
    fill: Fill,
    salt: u64,
    t: std::marker::PhantomData<u8>,
}
struct FormulaOf<T, L>(Formula<L>, std::marker::PhantomData<T>);
fn formula<T: Sc>(fill: Fill, salt: u64, r: usize, c: usize) -> T {
    elem(fill, salt, r * 1000 + c)
}
impl<T: Sc, L: LayoutType> UnsafeRandomAccess for FormulaOf<T, L> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        formula(self.0.fill, self.0.salt, r, c)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        let (r, c) = self.0.layout.convert_1d_2d(i);
        formula(self.0.fill, self.0.salt, r, c)
    }
}
impl<T: Sc, L: LayoutType> Layout for FormulaOf<T, L> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.0.layout
    }
}
impl<T: Sc, L: LayoutType> SizeType for FormulaOf<T, L> {
    type R = Dynamic;
    type C = Dynamic;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Usr {
    ty: Ty,
    /// which layouts
    fam: u8,
    dim: P,
    rot: usize,
    extra: usize,
    fill: Fill,
    sf: Fill,
    shape: u8,
    writes: Vec<(u32, u8, u8)>,
}
fn usrs() -> BoxedStrategy<Usr> {
    (ty(), 0u8..6, prop_oneof![4 => (1usize..=6, 1usize..=6), 1 => (0usize..=3, 0usize..=3), 1 => (1usize..=40, 1usize..=40)], 0usize..7, 0usize..3, fill(), fill(), 0u8..shapes::SHAPES,
     prop::collection::vec((any::<u32>(), 0u8..4, 0u8..5), 0..8))
        .prop_map(|(ty, fam, dim, rot, extra, fill, sf, shape, writes)| Usr { ty, fam, dim, rot, extra, fill, sf, shape, writes })
        .boxed()
}
fn check_usr(c: &Usr, o: &mut Obs) -> Res {
    if c.dim.0 * c.dim.1 > 1 {
        o.hit()
    }
    o.label(["own-order", "own-storage-order-row", "own-storage-order-column", "library-row-major", "library-column-major", "library-triangle"][c.fam as usize]);
    o.label_if(c.writes.iter().any(|w| w.2 > 0), "written-through-wrapper");
    let d = c.dim;
    with_ty!(c.ty, T => match c.fam {
        0 => usr::<T, Snake, Snake>(c, d, &|| Snake { dim: d, rot: c.rot }, Snake::from_dimension(d)),
        1 => usr::<T, BackRow, RowMajor>(c, d, &|| Back(d, 0u8), RowMajor::new(d)),
        2 => usr::<T, BackCol, ColumnMajor>(c, d, &|| Back(d, 0i8), ColumnMajor::new(d)),
        3 => usr::<T, RowMajor, RowMajor>(c, d, &|| RowMajor::new(d), RowMajor::new(d)),
        4 => usr::<T, ColumnMajor, ColumnMajor>(c, d, &|| ColumnMajor::new(d), ColumnMajor::new(d)),
        _ => {
            let d = (d.0, d.0);
            usr::<T, UpperTriangular, UpperTriangular>(c, d, &|| UpperTriangular::new(d.0), UpperTriangular::new(d.0))
        }
    })
}

/// All read paths; the order of the layout is its own.
fn look<T: Sc, L: LayoutType>(m: &dyn View<T>, l: &L, what: &str, want: &dyn Fn(usize, usize) -> T) -> Res {
    let n = l.number_of_elements();
    ensure!(m.dim() == l.dim() && m.nelems() == n, "{what}: {:?} and {} elements, should be {:?} and {n}", m.dim(), m.nelems(), l.dim());
    for i in 0..n {
        let (r, c) = l.convert_1d_2d(i);
        ensure!(m.c12(i) == (r, c) && m.c21(r, c) == i, "{what}: reports another layout at element {i}");
        let w = want(r, c);
        let v = unsafe { [m.rd(r, c), m.get1(i), m.getu(r, c), m.getu1(i)] };
        for (k, v) in v.iter().enumerate() {
            ensure!(v.same(w), "{what}: access {k} to element ({r},{c}) (linear {i}) gives {}, should be {}", show(*v), show(w));
        }
    }
    // and outside
    let d = l.dim();
    ensure!(refuses(|| m.rd(d.0, 0)) && refuses(|| m.rd(0, d.1)) && refuses(|| m.get1(n)), "{what}: an access outside the dimension was accepted");
    Ok(())
}

fn usr<T: Sc, L: LayoutType, B: BaseLayoutType<IndexLayout = B>>(c: &Usr, d: P, mk: &dyn Fn() -> L, b: B) -> Res
where
    L: LayoutType<IndexLayout = B>,
{
    let l = mk();
    let n = l.number_of_elements();
    let cap = n + c.extra;
    let what = format!("family {} {}x{}", c.fam, d.0, d.1);
    // storage of a, as the layout says
    let mut av: Vec<T> = fill_vec(c.fill, 0, cap);
    let mut ua: Matrix<T, UserMat<T, L, Dynamic, Dynamic>, L, Dynamic, Dynamic> = Matrix::new(UserMat::new(av.clone(), mk()));
    let mut ba = GenericBaseMatrixMut::<T, L, _, Dynamic, Dynamic>::from_data(VectorContainer::new(cap), mk());
    for i in 0..cap {
        unsafe { *ba.get_pointer_mut().add(i) = av[i] }
    }
    for (k, (at, path, how)) in c.writes.iter().enumerate() {
        if n == 0 {
            break;
        }
        let i = *at as usize % n;
        let (r, q) = l.convert_1d_2d(i);
        let v: T = elem(c.fill, 3, k);
        let mut go = |m: &mut dyn ViewMut<T>| match path {
            0 => *m.at_mut(r, q) = v,
            1 => *m.at1_mut(i) = v,
            2 => unsafe { *m.atu_mut(r, q) = v },
            _ => unsafe { *m.atu1_mut(i) = v },
        };
        macro_rules! wrapped {
            ($m:ident) => {
                match how {
                    0 => go(&mut $m),
                    1 | 2 => go(&mut Matrix::<T, MatrixRefMut<T, _, L, _, _>, L, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut $m))),
                    _ => {
                        let mut w = Matrix::<T, MatrixRefMut<T, _, L, _, _>, L, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut $m));
                        go(&mut Matrix::<T, MatrixRefMut<T, _, L, _, _>, L, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut w)))
                    }
                }
            };
        }
        wrapped!(ua);
        wrapped!(ba);
        av[l.convert_2d_raw(r, q)] = v;
    }
    let a_at = |r: usize, q: usize| av[l.convert_2d_raw(r, q)];
    look(&ua, &l, &format!("user implementation, {what}"), &a_at)?;
    look(&ba, &l, &format!("stored with the layout, {what}"), &a_at)?;
    for i in 0..cap {
        let v = ba.get_slice(0, cap)[i];
        ensure!(v.same(av[i]), "{what}: storage position {i} holds {}, should be {}", show(v), show(av[i]));
    }
    let r1 = Matrix::from_ref(&ua);
    let r2: Matrix<T, MatrixRef<T, _, L, _, _>, L, Dynamic, Dynamic> = Matrix::new(MatrixRef::new(&r1));
    look(&r1, &l, &format!("reference to a user implementation, {what}"), &a_at)?;
    look(&r2, &l, &format!("reference to a reference to a user implementation, {what}"), &a_at)?;
    // b: computed elements; cc: library storage with the index layout
    let fb: Matrix<T, FormulaOf<T, L>, L, Dynamic, Dynamic> =
        Matrix::new(FormulaOf(Formula { layout: mk(), fill: c.fill, salt: 4, t: Default::default() }, Default::default()));
    let b_at = |r: usize, q: usize| -> T { formula(c.fill, 4, r, q) };
    look(&fb, &l, &format!("computed elements, {what}"), &b_at)?;
    let cv: Vec<T> = fill_vec(c.fill, 5, n);
    let cc = GenericBaseMatrix::<T, B, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&cv), l.index_layout());
    let c_at = |r: usize, q: usize| cv[b.convert_2d_raw(r, q)];
    let (s, t): (T, T) = (elem(c.sf, 6, 0), elem(c.sf, 7, 1));
    let want = |r: usize, q: usize| shapes::want(c.shape, a_at(r, q), b_at(r, q), c_at(r, q), s, t);
    macro_rules! all {
        ($a:ident, $name:expr) => {
            with_shape!(c.shape, T, $a, fb, cc, s, t, shapes::run, x => {
                let w = format!("expression {} over {}, {what}", c.shape, $name);
                if n > 0 {
                    look(&x, &b, &w, &want)?;
                }
                let e = x.eval();
                look(&e, &b, &format!("evaluated {w}"), &want)?;
            })
        };
    }
    all!(ua, "user implementations");
    all!(ba, "a stored matrix and user implementations");
    Ok(())
}

pub fn c22() -> Vec<Sub> {
    vec![
        sub("shared_references", 100_000, 2_000_000, shareds, check_shared),
        sub("mutable_references", 100_000, 2_000_000, muts, check_muts),
        sub("shared_references_large", 600, 4_000, shareds_big, check_shared),
        sub("shared_references_huge", 8, 300, shareds_huge, check_shared),
        sub("mutable_references_large", 600, 4_000, muts_big, check_muts),
        sub("mutable_references_huge", 8, 300, muts_huge, check_muts),
        sub("user_implementations", 60_000, 1_000_000, usrs, check_usr),
    ]
}
