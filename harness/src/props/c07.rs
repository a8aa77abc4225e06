//! C07: scalar products.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::*;
use vh::ensure;
use vh::mats::*;
use vh::scal::*;
use vh::with_ty;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: Ty,
    spec: MSpec,
    fill: Fill,
    /// the scalars
    sf: Fill,
    si: (u32, u32),
    form: u8,
    /// two scalars
    nested: bool,
    /// also evaluate (dynamic kinds)
    eval: bool,
    /// where the evaluated matrix and the operand are changed afterwards
    poke: u32,
}

fn gen(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Case> {
    let sf = prop_oneof![
        3 => any::<u64>().prop_map(Fill::Special),
        1 => any::<u64>().prop_map(Fill::Ints),
        1 => any::<u64>().prop_map(Fill::Unit),
        1 => any::<u64>().prop_map(Fill::Wide),
    ];
    (ty(), spec_kinds(&ALL_KINDS, d, ANY).prop_filter("algebra is compiled", alg_fixed), fill(), sf, (0u32..1000, 0u32..1000), 0u8..5, prop::bool::weighted(0.3), any::<bool>(), any::<u32>())
        .prop_map(|(ty, spec, fill, sf, si, form, nested, eval, poke)| {
            let eval = eval && DYN_KINDS.contains(&spec.kind);
            Case { ty, spec, fill, sf, si, form, nested, eval, poke }
        })
        .boxed()
}
fn cases() -> BoxedStrategy<Case> {
    gen(prop_oneof![2 => small_dims(), 1 => dims()].boxed())
}
fn big_cases() -> BoxedStrategy<Case> {
    gen(big_dims())
}
fn huge_cases() -> BoxedStrategy<Case> {
    gen(huge_dims())
}

fn check(c: &Case, o: &mut Obs) -> Res {
    label_spec(&c.spec, o);
    if c.spec.n() >= 1 {
        o.hit()
    }
    o.label_if(c.nested, "two-scalars");
    o.label_if(c.eval, "evaluated");
    o.label(match c.sf {
        Fill::Special(_) => "special-scalar",
        _ => "ordinary-scalar",
    });
    o.label_if(matches!(c.fill, Fill::Special(_)), "special-elements");
    with_ty!(c.ty, T => run::<T>(c))
}

fn run<T: Sc>(c: &Case) -> Res {
    let model = Model::<T>::new(&c.spec, c.fill, 0);
    let mut buf = model.buf.clone();
    let s1: T = elem(c.sf, 6, c.si.0 as usize);
    let s2: T = elem(c.sf, 7, c.si.1 as usize);
    let sh = c.spec.shape();
    let form = c.form as usize;
    let full = sh.n() <= 2000;
    let mut res = Ok(());
    let d = c.spec.describe();
    if c.eval {
        with_dyn::<T>(&c.spec, &mut buf, &mut |m| {
            res = (|| {
                let mut e = m.eval_scaled(s1, form);
                let what = format!("evaluated {} * {d} (form {form})", show(s1));
                check_view(&*e, sh, &what, full, &|r, k| s1.rmul(model.at(r, k)))?;
                if sh.n() > 0 {
                    // the evaluated matrix is independent of the operand
                    let i = c.poke as usize % sh.n();
                    *e.at1_mut(i) = T::mk(-77.0, 7.5);
                    model.check_view(m, false)?;
                    let (r, k) = sh.at(i);
                    let old = m.rd(r, k);
                    *m.at_mut(r, k) = T::mk(88.0, 8.5);
                    let j = (i + 1) % sh.n();
                    if j != i {
                        let (r, k) = sh.at(j);
                        let w = s1.rmul(model.at(r, k));
                        ensure!(e.get1(j).same(w), "{what}: changed when the operand was written");
                    }
                    ensure!(e.get1(i).same(T::mk(-77.0, 7.5)), "{what}: changed when the operand was written");
                    *m.at_mut(r, k) = old;
                }
                Ok(())
            })()
        });
    } else {
        with_alg::<T>(&c.spec, &mut buf, &mut |m| {
            if c.nested {
                let what = format!("{} * ({} * {d}) (form {})", show(s1), show(s2), form % 4);
                m.scaled2(s1, s2, form, &mut |v| res = check_view(v, sh, &what, full, &|r, k| s1.rmul(s2.rmul(model.at(r, k)))));
            } else {
                let what = format!("{} * {d} (form {form})", show(s1));
                m.scaled(s1, form, &mut |v| res = check_view(v, sh, &what, full, &|r, k| s1.rmul(model.at(r, k))));
            }
            if res.is_ok() {
                res = model.check_view(m, false)
            }
        });
    }
    res?;
    model.check_buf(&buf)
}

pub fn c07() -> Vec<Sub> {
    vec![sub("scalar_products", 160_000, 3_000_000, cases, check), sub("scalar_products_large", 1_200, 4_000, big_cases, check),
        sub("scalar_products_huge", 8, 300, huge_cases, check),]
}
