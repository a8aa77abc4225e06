//! C09: evaluation of expressions.
use householder::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vh::engine::*;
use vh::mats::*;
use vh::scal::*;
use vh::shapes;
use vh::{with_shape, with_ty};

type P = (usize, usize);
type Base<T, D, L> = GenericBaseMatrix<T, L, D, Dynamic, Dynamic>;

const ROWS: [Kind; 2] = [Kind::RM, Kind::SRM];
const COLS: [Kind; 2] = [Kind::CM, Kind::SCM];
const UTS: [Kind; 1] = [Kind::UT];
const RVS: [Kind; 1] = [Kind::RVD];
const CVS: [Kind; 1] = [Kind::CVD];

fn specs(fam: &'static [Kind], d: P, n: usize) -> BoxedStrategy<Vec<MSpec>> {
    prop::collection::vec(prop::sample::select(fam.to_vec()).prop_flat_map(move |k| spec_for(k, d, ANY)), n..=n).boxed()
}
fn fams() -> BoxedStrategy<&'static [Kind]> {
    let f: Vec<(u32, &'static [Kind])> = vec![(4, &ROWS), (4, &COLS), (3, &UTS), (1, &RVS), (1, &CVS)];
    prop::sample::select(f.into_iter().flat_map(|(n, k)| std::iter::repeat(k).take(n as usize)).collect::<Vec<_>>()).boxed()
}

// --- random trees ----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ex {
    /// operand number, form of its use
    Leaf(u8, u8),
    Scale(u32, u8, Box<Ex>),
    Add(u8, Box<Ex>, Box<Ex>),
    Ref(u8, Box<Ex>),
    /// evaluate this part on its own and use the result
    Eval(Box<Ex>),
}
impl Ex {
    fn size(&self) -> usize {
        match self {
            Ex::Leaf(..) => 1,
            Ex::Scale(_, _, x) | Ex::Ref(_, x) | Ex::Eval(x) => 1 + x.size(),
            Ex::Add(_, x, y) => 1 + x.size() + y.size(),
        }
    }
    fn adds(&self) -> usize {
        match self {
            Ex::Leaf(_, f) => (f % 6 == 3 || f % 6 == 4) as usize,
            Ex::Scale(_, _, x) | Ex::Ref(_, x) | Ex::Eval(x) => x.adds(),
            Ex::Add(_, x, y) => 1 + x.adds() + y.adds(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    ty: Ty,
    ops: Vec<MSpec>,
    fill: Fill,
    sf: Fill,
    ex: Ex,
    poke: u32,
}
fn ex() -> BoxedStrategy<Ex> {
    let leaf = (0u8..4, 0u8..6).prop_map(|(l, f)| Ex::Leaf(l, f));
    leaf.prop_recursive(5, 24, 2, |x| {
        prop_oneof![
            3 => (0u32..100, 0u8..4, x.clone()).prop_map(|(s, f, x)| Ex::Scale(s, f, Box::new(x))),
            5 => (0u8..4, x.clone(), x.clone()).prop_map(|(f, x, y)| Ex::Add(f, Box::new(x), Box::new(y))),
            1 => (1u8..=3, x.clone()).prop_map(|(d, x)| Ex::Ref(d, Box::new(x))),
            1 => x.prop_map(|x| Ex::Eval(Box::new(x))),
        ]
    })
    .boxed()
}
fn trees() -> BoxedStrategy<Tree> {
    let d = prop_oneof![5 => small_dims(), 1 => (1usize..=33, 1usize..=33)];
    (fams(), d, 1usize..=4)
        .prop_flat_map(|(f, d, n)| (ty(), specs(f, d, n), fill(), fill(), ex(), any::<u32>()))
        .prop_map(|(ty, ops, fill, sf, ex, poke)| Tree { ty, ops, fill, sf, ex, poke })
        .boxed()
}

/// A library matrix with its type hidden: element access is forwarded.
trait Obj<T> {
    unsafe fn u2(&self, r: usize, c: usize) -> T;
    unsafe fn u1(&self, i: usize) -> T;
}
impl<T: Sc, I: MatrixTrait<T, L, Dynamic, Dynamic>, L: LayoutType> Obj<T> for Matrix<T, I, L, Dynamic, Dynamic> {
    unsafe fn u2(&self, r: usize, c: usize) -> T {
        self.get_unchecked(r, c)
    }
    unsafe fn u1(&self, i: usize) -> T {
        self.get1d_unchecked(i)
    }
}
struct Hidden<'a, T, B> {
    inner: Box<dyn Obj<T> + 'a>,
    layout: B,
}
impl<'a, T: Sc, B: LayoutType> UnsafeRandomAccess for Hidden<'a, T, B> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        self.inner.u2(r, c)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.inner.u1(i)
    }
}
impl<'a, T, B: LayoutType> Layout for Hidden<'a, T, B> {
    type Impl = B;
    fn layout(&self) -> &B {
        &self.layout
    }
}
impl<'a, T, B> SizeType for Hidden<'a, T, B> {
    type R = Dynamic;
    type C = Dynamic;
}
type E<'a, T, B> = Matrix<T, Hidden<'a, T, B>, B, Dynamic, Dynamic>;

fn hide<'a, T: Sc, I: MatrixTrait<T, L, Dynamic, Dynamic> + 'a, L: LayoutType + 'a>(m: Matrix<T, I, L, Dynamic, Dynamic>) -> E<'a, T, L::IndexLayout> {
    let layout = m.layout().index_layout();
    Matrix::new(Hidden { inner: Box::new(m), layout })
}

/// Keeps the referents of reference operands alive until it is cleared.
#[derive(Default)]
struct Arena(RefCell<Vec<(*mut u8, unsafe fn(*mut u8))>>);
impl Arena {
    fn keep<'a, X: 'a>(&self, x: X) -> &'a X {
        unsafe fn gone<X>(p: *mut u8) {
            drop(Box::from_raw(p as *mut X))
        }
        let p = Box::into_raw(Box::new(x));
        self.0.borrow_mut().push((p as *mut u8, gone::<X>));
        unsafe { &*p }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for (p, f) in self.0.borrow_mut().drain(..).rev() {
            unsafe { f(p) }
        }
    }
}

/// An operand, usable in any expression of index layout B.
trait Operand<T: Sc, B: LayoutType + 'static> {
    fn hidden<'a>(&'a self, form: u8, s: T) -> E<'a, T, B>;
    fn model_check(&self, m: &Model<T>) -> Res;
    fn write(&mut self, r: usize, c: usize, v: T) -> T;
}
impl<T, D, L, B> Operand<T, B> for Base<T, D, L>
where
    T: Sc,
    D: DataContainerMut<Item = T>,
    L: LayoutType<IndexLayout = B>,
    B: BaseLayoutType<IndexLayout = B> + 'static,
{
    fn hidden<'a>(&'a self, form: u8, s: T) -> E<'a, T, B> {
        match form % 6 {
            0 => hide(Matrix::from_ref(self)),
            1 => hide(T::s_rm(s, self)),
            2 => hide(T::m_s(Matrix::from_ref(self), s)),
            3 => hide(self + self),
            4 => hide(T::s_rm(s, self) + self),
            _ => hide(Matrix::from_ref(self)),
        }
    }
    fn model_check(&self, m: &Model<T>) -> Res {
        m.check_view(self, false)
    }
    fn write(&mut self, r: usize, c: usize, v: T) -> T {
        std::mem::replace(self.get_mut(r, c), v)
    }
}

struct Env<'a, T: Sc> {
    c: &'a Tree,
    models: &'a [Model<T>],
}
impl<'a, T: Sc> Env<'a, T> {
    fn s(&self, i: u32) -> T {
        elem(self.c.sf, 6, i as usize)
    }
    fn leaf_s(&self, l: u8) -> T {
        self.s(200 + l as u32)
    }
    /// the expression at one element
    fn want(&self, e: &Ex, r: usize, k: usize) -> T {
        match e {
            Ex::Leaf(l, f) => {
                let v = self.models[*l as usize % self.models.len()].at(r, k);
                let s = self.leaf_s(*l);
                match f % 6 {
                    1 | 2 => s.rmul(v),
                    3 => v.radd(v),
                    4 => s.rmul(v).radd(v),
                    _ => v,
                }
            }
            Ex::Scale(s, _, x) => self.s(*s).rmul(self.want(x, r, k)),
            Ex::Add(_, x, y) => self.want(x, r, k).radd(self.want(y, r, k)),
            Ex::Ref(_, x) | Ex::Eval(x) => self.want(x, r, k),
        }
    }
    fn make<'b, B: BaseLayoutType<IndexLayout = B> + 'static>(&self, e: &Ex, ops: &'b [Box<dyn Operand<T, B> + 'b>], ar: &Arena) -> E<'b, T, B> {
        match e {
            Ex::Leaf(l, f) => ops[*l as usize % ops.len()].hidden(*f, self.leaf_s(*l)),
            Ex::Scale(s, f, x) => {
                let x = self.make(x, ops, ar);
                let s = self.s(*s);
                match f {
                    0 => hide(T::s_m(s, x)),
                    1 => hide(T::m_s(x, s)),
                    2 => hide(T::s_rm(s, ar.keep(x))),
                    _ => hide(T::rm_s(ar.keep(x), s)),
                }
            }
            Ex::Add(f, x, y) => {
                let (x, y) = (self.make(x, ops, ar), self.make(y, ops, ar));
                match f {
                    0 => hide(x + y),
                    1 => hide(ar.keep(x) + y),
                    2 => hide(x + ar.keep(y)),
                    _ => hide(ar.keep(x) + ar.keep(y)),
                }
            }
            Ex::Ref(d, x) => {
                let x: &'b E<'b, T, B> = ar.keep(self.make(x, ops, ar));
                let m = Matrix::from_ref(x);
                match d {
                    1 => hide(m),
                    2 => hide(Matrix::from_ref(ar.keep(m))),
                    _ => hide(Matrix::from_ref(ar.keep(Matrix::from_ref(ar.keep(m))))),
                }
            }
            Ex::Eval(x) => hide(self.make(x, ops, ar).eval()),
        }
    }
}

fn check_tree(c: &Tree, o: &mut Obs) -> Res {
    label_spec(&c.ops[0], o);
    if c.ops[0].n() > 0 && c.ex.size() >= 3 {
        o.hit()
    }
    o.label_if(c.ex.size() >= 8, "8-or-more-nodes");
    o.label_if(c.ex.adds() >= 3, "3-or-more-sums");
    o.label_if(c.ops.len() > 1, "several-operands");
    with_ty!(c.ty, T => match c.ops[0].kind {
        Kind::RM | Kind::SRM => tree::<T, RowMajor>(c),
        Kind::CM | Kind::SCM => tree::<T, ColumnMajor>(c),
        Kind::UT => tree::<T, UpperTriangular>(c),
        Kind::RVD => tree::<T, RowVector>(c),
        _ => tree::<T, ColumnVector>(c),
    })
}

/// Layouts by index layout.
trait Fam: BaseLayoutType<IndexLayout = Self> + 'static + Sized {
    fn operand<'a, T: Sc>(s: &MSpec, buf: &'a mut [T]) -> Box<dyn Operand<T, Self> + 'a>;
}
fn op_of<'a, T: Sc, L: MkLayout + LayoutType<IndexLayout = B> + 'a, B: BaseLayoutType<IndexLayout = B> + 'static>(s: &MSpec, buf: &'a mut [T]) -> Box<dyn Operand<T, B> + 'a> {
    Box::new(Base::<T, _, L>::from_data(SliceContainerMut::new(&mut buf[s.off..s.off + s.clen]), L::mk(s)))
}
macro_rules! fam {
    ($B:ident, $k:ident => $L:ident) => {
        impl Fam for $B {
            fn operand<'a, T: Sc>(s: &MSpec, buf: &'a mut [T]) -> Box<dyn Operand<T, Self> + 'a> {
                if s.kind == Kind::$k {
                    op_of::<T, $L, $B>(s, buf)
                } else {
                    op_of::<T, $B, $B>(s, buf)
                }
            }
        }
    };
}
fam!(RowMajor, SRM => ArbitraryStrideRowMajor);
fam!(ColumnMajor, SCM => ArbitraryStrideColumnMajor);
fam!(UpperTriangular, UT => UpperTriangular);
fam!(RowVector, RVD => RowVector);
fam!(ColumnVector, CVD => ColumnVector);

fn tree<T: Sc, B: Fam>(c: &Tree) -> Res {
    let models: Vec<Model<T>> = c.ops.iter().enumerate().map(|(i, s)| Model::new(s, c.fill, i as u64)).collect();
    let mut bufs: Vec<Vec<T>> = models.iter().map(|m| m.buf.clone()).collect();
    {
        let mut ops: Vec<Box<dyn Operand<T, B> + '_>> = c.ops.iter().zip(bufs.iter_mut()).map(|(s, b)| B::operand::<T>(s, b)).collect();
        let env = Env { c, models: &models };
        let sh = c.ops[0].shape();
        let what = format!("{:?} over {}", c.ex, c.ops.iter().map(|s| s.describe()).collect::<Vec<_>>().join(", "));
        let what: &str = if what.len() > 700 { &what[..700] } else { &what };
        let want = |r: usize, k: usize| env.want(&c.ex, r, k);
        let mut ev = {
            let ar = Arena::default();
            // the expression borrows the operands and the arena; both outlive it
            let ops_ref: &[Box<dyn Operand<T, B> + '_>] = &ops;
            let e = env.make::<B>(&c.ex, unsafe { std::mem::transmute(ops_ref) }, &ar);
            check_view(&e, sh, what, false, &want)?;
            let ev = e.eval();
            check_view(&ev, sh, &format!("evaluated {what}"), false, &want)?;
            let mut ev2 = e.eval();
            check_view(&ev2, sh, &format!("evaluated again {what}"), false, &want)?;
            if sh.n() > 0 {
                // one result is independent of the other, of the expression and of the operands
                *ev2.get1d_mut(c.poke as usize % sh.n()) = T::mk(-77.0, 7.5);
                check_view(&ev, sh, &format!("evaluated {what} after writing another evaluation"), false, &want)?;
                check_view(&e, sh, &format!("{what} after writing an evaluation"), false, &want)?;
            }
            drop(e);
            ev
        };
        for (o, m) in ops.iter().zip(&models) {
            o.model_check(m)?;
        }
        if sh.n() > 0 {
            let (r, k) = sh.at(c.poke as usize % sh.n());
            // writing an operand does not change the evaluated matrix
            for o in &mut ops {
                let old = o.write(r, k, T::mk(55.0, 5.5));
                check_view(&ev, sh, &format!("evaluated {what} after writing an operand"), false, &want)?;
                o.write(r, k, old);
            }
            *ev.get_mut(r, k) = T::mk(-66.0, 6.5);
            for (o, m) in ops.iter().zip(&models) {
                o.model_check(m)?;
            }
        }
    }
    for (m, b) in models.iter().zip(&bufs) {
        m.check_buf(b)?;
    }
    Ok(())
}

// --- fixed expression types -------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stat {
    pub ty: Ty,
    pub combo: u8,
    pub ops: Vec<MSpec>,
    pub fill: Fill,
    pub sf: Fill,
    pub shape: u8,
}
pub const COMBOS: [[Kind; 3]; 11] = {
    use Kind::*;
    [
        [RM, RM, SRM], [RM, SRM, SRM], [SRM, RM, RM], [SRM, SRM, RM],
        [CM, CM, SCM], [CM, SCM, SCM], [SCM, CM, CM], [SCM, SCM, CM],
        [UT, UT, UT], [RVD, RVD, RVD], [CVD, CVD, CVD],
    ]
};
pub fn stat_gen(combos: &'static [[Kind; 3]], d: BoxedStrategy<P>) -> BoxedStrategy<Stat> {
    (0u8..combos.len() as u8, d)
        .prop_flat_map(|(combo, d)| {
            let k = combos[combo as usize];
            let s = (spec_for(k[0], d, ANY), spec_for(k[1], d, ANY), spec_for(k[2], d, ANY)).prop_map(|(a, b, c)| vec![a, b, c]);
            (ty(), Just(combo), s, fill(), fill(), 0u8..shapes::SHAPES)
        })
        .prop_map(|(ty, combo, ops, fill, sf, shape)| Stat { ty, combo, ops, fill, sf, shape })
        .boxed()
}
fn stats() -> BoxedStrategy<Stat> {
    stat_gen(&COMBOS, prop_oneof![3 => small_dims(), 1 => dims()].boxed())
}
fn stats_big() -> BoxedStrategy<Stat> {
    stat_gen(&COMBOS, big_dims())
}
fn stats_huge() -> BoxedStrategy<Stat> {
    stat_gen(&COMBOS, huge_dims_lite())
}
fn check_stat(c: &Stat, o: &mut Obs) -> Res {
    label_spec(&c.ops[0], o);
    o.label_if(c.ops[0].kind != c.ops[1].kind || c.ops[1].kind != c.ops[2].kind, "mixed-storage");
    if c.ops[0].n() > 0 {
        o.hit()
    }
    type R = RowMajor;
    type C = ColumnMajor;
    type SR = ArbitraryStrideRowMajor;
    type SC = ArbitraryStrideColumnMajor;
    with_ty!(c.ty, T => match c.combo {
        0 => stat::<T, R, R, SR, R>(c),
        1 => stat::<T, R, SR, SR, R>(c),
        2 => stat::<T, SR, R, R, R>(c),
        3 => stat::<T, SR, SR, R, R>(c),
        4 => stat::<T, C, C, SC, C>(c),
        5 => stat::<T, C, SC, SC, C>(c),
        6 => stat::<T, SC, C, C, C>(c),
        7 => stat::<T, SC, SC, C, C>(c),
        8 => stat::<T, UpperTriangular, UpperTriangular, UpperTriangular, UpperTriangular>(c),
        9 => stat::<T, RowVector, RowVector, RowVector, RowVector>(c),
        _ => stat::<T, ColumnVector, ColumnVector, ColumnVector, ColumnVector>(c),
    })
}
fn stat<T, L1, L2, L3, B>(c: &Stat) -> Res
where
    T: Sc,
    L1: MkLayout + LayoutType<IndexLayout = B>,
    L2: MkLayout + LayoutType<IndexLayout = B>,
    L3: MkLayout + LayoutType<IndexLayout = B>,
    B: BaseLayoutType<IndexLayout = B>,
{
    let m: Vec<Model<T>> = c.ops.iter().enumerate().map(|(i, s)| Model::new(s, c.fill, i as u64)).collect();
    let bufs: Vec<Vec<T>> = m.iter().map(|m| m.buf.clone()).collect();
    let part = |i: usize| SliceContainer::new(&bufs[i][c.ops[i].off..c.ops[i].off + c.ops[i].clen]);
    let a = Base::<T, _, L1>::from_data(part(0), L1::mk(&c.ops[0]));
    let b = Base::<T, _, L2>::from_data(part(1), L2::mk(&c.ops[1]));
    let cc = Base::<T, _, L3>::from_data(part(2), L3::mk(&c.ops[2]));
    let (s, t): (T, T) = (elem(c.sf, 6, 0), elem(c.sf, 7, 1));
    let sh = c.ops[0].shape();
    let what = format!("expression {} over {}, {}, {}", c.shape, c.ops[0].describe(), c.ops[1].describe(), c.ops[2].describe());
    let want = |r: usize, k: usize| shapes::want(c.shape, m[0].at(r, k), m[1].at(r, k), m[2].at(r, k), s, t);
    with_shape!(c.shape, T, a, b, cc, s, t, shapes::run, x => {
        check_view(&x, sh, &what, sh.n() <= 500, &want)?;
        let e = x.eval();
        check_view(&e, sh, &format!("evaluated {what}"), false, &want)?;
    });
    for (m, b) in m.iter().zip(&bufs) {
        m.check_buf(b)?;
    }
    Ok(())
}

pub fn c09() -> Vec<Sub> {
    vec![
        sub("random_trees", 100_000, 2_000_000, trees, check_tree),
        sub("typed_expressions", 100_000, 2_000_000, stats, check_stat),
        sub("typed_expressions_large", 1_200, 4_000, stats_big, check_stat),
        sub("typed_expressions_huge", 8, 300, stats_huge, check_stat),
    ]
}
