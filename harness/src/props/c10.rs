//! C10: laziness and single-pass evaluation, seen through an instrumented container and allocator.
use super::base::{stat_gen, Stat, COMBOS};
use householder::*;
use proptest::prelude::*;
use std::cell::Cell;
use vh::alloc::counted;
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::shapes;
use vh::{with_shape, with_ty};

/// Counts what the library does with a container.
struct Log {
    at: Vec<Cell<u32>>,
    total: Cell<u32>,
    outside: Cell<u32>,
    pointers: Cell<u32>,
}
impl Log {
    fn new(n: usize) -> Self {
        Log { at: vec![Cell::new(0); n], total: Cell::new(0), outside: Cell::new(0), pointers: Cell::new(0) }
    }
}
struct Probe<'a, T> {
    data: &'a [T],
    log: &'a Log,
}
impl<'a, T: Sc> DataContainer for Probe<'a, T> {
    type Item = T;
    unsafe fn get_unchecked(&self, index: usize) -> T {
        self.log.total.set(self.log.total.get() + 1);
        match self.log.at.get(index) {
            Some(c) => {
                c.set(c.get() + 1);
                self.data[index]
            }
            None => {
                self.log.outside.set(self.log.outside.get() + 1);
                T::mk(0.0, 0.0)
            }
        }
    }
    fn get_pointer(&self) -> *const T {
        self.log.pointers.set(self.log.pointers.get() + 1);
        self.data.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.data.len()
    }
}

const ALL: [[Kind; 3]; 15] = {
    use Kind::*;
    let c = COMBOS;
    [
        c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10],
        [RV, RV, SRV], [SRV, RV, SRV], [CV, SCV, CV], [SCV, SCV, CV],
    ]
};

fn cases() -> BoxedStrategy<Stat> {
    stat_gen(&ALL, prop_oneof![4 => small_dims(), 2 => dims(), 1 => (20usize..=60, 20usize..=60)].boxed())
}
fn cases_big() -> BoxedStrategy<Stat> {
    stat_gen(&ALL, big_dims())
}
fn cases_huge() -> BoxedStrategy<Stat> {
    stat_gen(&ALL, huge_dims_lite())
}

type D = Dynamic;
type F = Fixed1;
type Base<T, Da, L, RS, CS> = GenericBaseMatrix<T, L, Da, RS, CS>;

fn check(c: &Stat, o: &mut Obs) -> Res {
    label_spec(&c.ops[0], o);
    let sh = c.ops[0].shape();
    if sh.n() > 1 {
        o.hit()
    }
    o.label_if(sh.n() * 8 > 2048, "result-larger-than-the-slack");
    type R = RowMajor;
    type C = ColumnMajor;
    type SR = ArbitraryStrideRowMajor;
    type SC = ArbitraryStrideColumnMajor;
    type U = UpperTriangular;
    type RVL = RowVector;
    type CVL = ColumnVector;
    type SRVL = ArbitraryStrideRowVector;
    type SCVL = ArbitraryStrideColumnVector;
    with_ty!(c.ty, T => match c.combo {
        0 => go::<T, R, R, SR, R, D, D>(c),
        1 => go::<T, R, SR, SR, R, D, D>(c),
        2 => go::<T, SR, R, R, R, D, D>(c),
        3 => go::<T, SR, SR, R, R, D, D>(c),
        4 => go::<T, C, C, SC, C, D, D>(c),
        5 => go::<T, C, SC, SC, C, D, D>(c),
        6 => go::<T, SC, C, C, C, D, D>(c),
        7 => go::<T, SC, SC, C, C, D, D>(c),
        8 => go::<T, U, U, U, U, D, D>(c),
        9 => go::<T, RVL, RVL, RVL, RVL, D, D>(c),
        10 => go::<T, CVL, CVL, CVL, CVL, D, D>(c),
        11 => go::<T, RVL, RVL, SRVL, RVL, F, D>(c),
        12 => go::<T, SRVL, RVL, SRVL, RVL, F, D>(c),
        13 => go::<T, CVL, SCVL, CVL, CVL, D, F>(c),
        _ => go::<T, SCVL, SCVL, CVL, CVL, D, F>(c),
    })
}

struct Watch<'a> {
    logs: &'a [Log],
    before: Vec<(u32, u32)>,
}
impl<'a> Watch<'a> {
    fn start(logs: &'a [Log], pos: &[usize]) -> Self {
        Watch { logs, before: logs.iter().zip(pos).map(|(l, p)| (l.total.get(), l.at[*p].get())).collect() }
    }
    fn expect(&self, pos: &[usize], occ: [u32; 3], what: &str) -> Res {
        for i in 0..self.logs.len() {
            let l = &self.logs[i];
            let (t, a) = self.before[i];
            ensure!(
                l.total.get() - t == occ[i] && l.at[pos[i]].get() - a == occ[i],
                "{what}: operand {i} was read {} times ({} times at the element itself), should be {} times",
                l.total.get() - t, l.at[pos[i]].get() - a, occ[i]
            );
        }
        Ok(())
    }
}

fn go<T, L1, L2, L3, B, RS, CS>(c: &Stat) -> Res
where
    T: Sc,
    L1: MkLayout + LayoutType<IndexLayout = B>,
    L2: MkLayout + LayoutType<IndexLayout = B>,
    L3: MkLayout + LayoutType<IndexLayout = B>,
    B: BaseLayoutType<IndexLayout = B> + 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
    Any<RS, CS>: Evals<RS = RS, CS = CS>,
{
    let m: Vec<Model<T>> = c.ops.iter().enumerate().map(|(i, s)| Model::new(s, c.fill, i as u64)).collect();
    let bufs: Vec<Vec<T>> = m.iter().map(|m| m.buf.clone()).collect();
    let logs: Vec<Log> = c.ops.iter().map(|s| Log::new(s.clen)).collect();
    let part = |i: usize| Probe { data: &bufs[i][c.ops[i].off..c.ops[i].off + c.ops[i].clen], log: &logs[i] };
    let a = Base::<T, _, L1, RS, CS>::from_data(part(0), L1::mk(&c.ops[0]));
    let b = Base::<T, _, L2, RS, CS>::from_data(part(1), L2::mk(&c.ops[1]));
    let cc = Base::<T, _, L3, RS, CS>::from_data(part(2), L3::mk(&c.ops[2]));
    let (s, t): (T, T) = (elem(c.sf, 6, 0), elem(c.sf, 7, 1));
    let sh = c.ops[0].shape();
    let what = format!("expression {} over {}, {}, {}", c.shape, c.ops[0].describe(), c.ops[1].describe(), c.ops[2].describe());
    let want = |r: usize, k: usize| shapes::want(c.shape, m[0].at(r, k), m[1].at(r, k), m[2].at(r, k), s, t);
    let occ = shapes::occurrences(c.shape);
    let pristine = |logs: &[Log]| logs.iter().all(|l| l.total.get() == 0 && l.pointers.get() == 0);
    with_shape!(c.shape, T, a, b, cc, s, t, counted, x => {
        let (x, allocs, bytes) = x;
        ensure!(allocs == 0, "{what}: forming it allocated {allocs} times, {bytes} bytes");
        ensure!(pristine(&logs), "{what}: forming it read operands: {:?}", logs.iter().map(|l| l.total.get()).collect::<Vec<_>>());
        // one element at a time
        let n = sh.n();
        let picks: Vec<usize> = if n <= 24 { (0..n).collect() } else { (0..24).map(|i| mix(n as u64, i) as usize % n).collect() };
        for &i in &picks {
            let (r, k) = sh.at(i);
            let pos: Vec<usize> = c.ops.iter().map(|s| s.raw(r, k)).collect();
            for path in 0..4 {
                let w = Watch::start(&logs, &pos);
                let (v, allocs, _) = counted(|| match path {
                    0 => x.get(r, k),
                    1 => x.get1d(i),
                    2 => unsafe { x.get_unchecked(r, k) },
                    _ => unsafe { x.get1d_unchecked(i) },
                });
                ensure!(v.same(want(r, k)), "{what}: element ({r},{k}) by path {path} is {}, should be {}", show(v), show(want(r, k)));
                ensure!(allocs == 0, "{what}: reading element ({r},{k}) by path {path} allocated {allocs} times");
                w.expect(&pos, occ, &format!("{what}: reading element ({r},{k}) by path {path}"))?;
            }
        }
        // two evaluations
        for round in 0..2 {
            let before: Vec<Vec<u32>> = logs.iter().map(|l| l.at.iter().map(|x| x.get()).collect()).collect();
            let Some((e, _, bytes)) = <Any<RS, CS> as Evals>::eval(&x) else { break };
            let size = (n * std::mem::size_of::<T>()) as u64;
            ensure!(bytes >= size && bytes <= size + size / 2 + 512,
                "{what}: evaluating it (round {round}) allocated {bytes} bytes for a result of {size} bytes");
            for (j, l) in logs.iter().enumerate() {
                ensure!(l.outside.get() == 0, "{what}: operand {j} was read outside its container");
                let mut expect = before[j].clone();
                for i in 0..n {
                    let (r, k) = sh.at(i);
                    expect[c.ops[j].raw(r, k)] += occ[j];
                }
                for (p, (x, y)) in l.at.iter().zip(&expect).enumerate() {
                    ensure!(x.get() == *y, "{what}: evaluating it (round {round}) read position {p} of operand {j} {} times, should be {} times",
                        x.get() - before[j][p], y - before[j][p]);
                }
            }
            if round == 0 {
                check_view(&*e, sh, &format!("evaluated {what}"), false, &want)?;
            }
        }
        ensure!(logs.iter().all(|l| l.outside.get() == 0), "{what}: an operand was read outside its container");
    });
    for (m, b) in m.iter().zip(&bufs) {
        m.check_buf(b)?;
    }
    Ok(())
}

/// Selects evaluation by the size types.
struct Any<RS, CS>(std::marker::PhantomData<(RS, CS)>);
trait Evals {
    type RS: SizeIdentifier;
    type CS: SizeIdentifier;
    fn eval<T: Sc, I, L: LayoutType>(m: &Matrix<T, I, L, Self::RS, Self::CS>) -> Option<(Box<dyn View<T>>, u64, u64)>
    where
        I: MatrixTrait<T, L, Self::RS, Self::CS>,
        L::IndexLayout: 'static;
}
macro_rules! evals {
    ($R:ty, $C:ty, $m:ident => $e:expr) => {
        impl Evals for Any<$R, $C> {
            type RS = $R;
            type CS = $C;
            fn eval<T: Sc, I, L: LayoutType>($m: &Matrix<T, I, L, $R, $C>) -> Option<(Box<dyn View<T>>, u64, u64)>
            where
                I: MatrixTrait<T, L, $R, $C>,
                L::IndexLayout: 'static,
            {
                $e
            }
        }
    };
}
evals!(D, D, m => { let (m, n, b) = counted(|| m.eval()); Some((Box::new(m), n, b)) });
evals!(F, D, _m => None);
evals!(D, F, _m => None);

pub fn c10() -> Vec<Sub> {
    vec![
        sub("reads_and_allocations", 80_000, 1_500_000, cases, check),
        sub("reads_and_allocations_large", 480, 3_000, cases_big, check),
        sub("reads_and_allocations_huge", 8, 300, cases_huge, check),
    ]
}
