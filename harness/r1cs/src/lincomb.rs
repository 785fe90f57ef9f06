//! Replays operator histories of LinComb on LinearCombination and ConstraintVar.
use mock::*;
use zkp_r1cs::{ConstraintVar, Index, LinearCombination, Variable};
type F = Fp<97>;
type L = LinearCombination<F>;
type C = ConstraintVar<F>;
const NI: usize = 4;
fn var(v: usize) -> Variable { Variable::new_unchecked(if v < NI { Index::Input(v) } else { Index::Aux(v - NI) }) }
fn terms(l: &L) -> Vec<(usize, i64)> {
    l.as_ref().iter().map(|(v, c)| (match v.get_unchecked() { Index::Input(i) => i, Index::Aux(i) => i + NI }, c.raw() as i64)).collect()
}
fn cterms(c: &C) -> Vec<(usize, i64)> { match c { ConstraintVar::LC(l) => terms(l), ConstraintVar::Var(v) => terms(&L::from(*v)) } }

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (n, inst) in read_lines(&a[1]).iter().enumerate() {
        let mut l: Vec<L> = vec![L::zero(); 4];
        let mut c: Vec<C> = vec![C::zero(); 4];
        for e in inst.arr("ops") {
            let (d, ra, rb, k, v, f) = (e.us("d"), e.us("a"), e.us("b"), F::i(e["c"].as_i64().unwrap()), var(e.us("v")), e.us("f"));
            let (li, ci) = (|r: usize| r - 1, |r: usize| r - 5);
            let r = guarded(|| {
                macro_rules! forms { ($a:expr, $b:expr, $op:tt) => { match f { 0 => $a.clone() $op $b.clone(), 1 => $a.clone() $op &$b, 2 => &$a $op $b.clone(), _ => &$a $op &$b } } }
                macro_rules! cforms { ($a:expr, $b:expr, $op:tt) => { match f { 0 => $a.clone() $op (k, $b.clone()), 1 => $a.clone() $op (k, &$b), 2 => &$a $op (k, $b.clone()), _ => &$a $op (k, &$b) } } }
                match e.st("op") {
                    "lc_zero" => l[li(d)] = L::zero(),
                    "lc_var" => l[li(d)] = v.into(),
                    "lc_cvar" => l[li(d)] = (k, v).into(),
                    "lc_addv" => l[li(d)] = l[li(ra)].clone() + v,
                    "lc_subv" => l[li(d)] = l[li(ra)].clone() - v,
                    "lc_addcv" => l[li(d)] = l[li(ra)].clone() + (k, v),
                    "lc_subcv" => l[li(d)] = l[li(ra)].clone() - (k, v),
                    "lc_addassign" => l[li(d)] += (k, v),
                    "lc_neg" => l[li(d)] = -l[li(ra)].clone(),
                    "lc_mul" => l[li(d)] = l[li(ra)].clone() * k,
                    "lc_mulassign" => l[li(d)] *= k,
                    "lc_negin" => l[li(d)].negate_in_place(),
                    "lc_dblin" => l[li(d)].double_in_place(),
                    "lc_repl" => { let o = l[li(ra)].clone(); l[li(d)].replace_in_place(o) }
                    "lc_add" => l[li(d)] = forms!(l[li(ra)], l[li(rb)], +),
                    "lc_sub" => l[li(d)] = forms!(l[li(ra)], l[li(rb)], -),
                    "lc_addc" => l[li(d)] = cforms!(l[li(ra)], l[li(rb)], +),
                    "lc_subc" => l[li(d)] = cforms!(l[li(ra)], l[li(rb)], -),
                    "cv_addlc" => l[li(d)] = if f == 0 { c[ci(ra)].clone() + l[li(rb)].clone() } else { &c[ci(ra)] + l[li(rb)].clone() },
                    "cv_sublc" => l[li(d)] = if f == 0 { c[ci(ra)].clone() - l[li(rb)].clone() } else { &c[ci(ra)] - l[li(rb)].clone() },
                    "cv_zero" => c[ci(d)] = C::zero(),
                    "cv_var" => c[ci(d)] = v.into(),
                    "cv_cvar" => c[ci(d)] = (k, v).into(),
                    "cv_fromlc" => c[ci(d)] = l[li(ra)].clone().into(),
                    "cv_fromclc" => c[ci(d)] = (k, l[li(ra)].clone()).into(),
                    "cv_fromccv" => c[ci(d)] = (k, c[ci(ra)].clone()).into(),
                    "cv_negin" => c[ci(d)].negate_in_place(),
                    "cv_dblin" => c[ci(d)].double_in_place(),
                    "cv_addcv" => c[ci(d)] = c[ci(ra)].clone() + (k, v),
                    "cv_subcv" => c[ci(d)] = c[ci(ra)].clone() - (k, v),
                    "cv_addassign" => c[ci(d)] += (k, v),
                    "cv_neg" => c[ci(d)] = -c[ci(ra)].clone(),
                    "cv_mul" => c[ci(d)] = c[ci(ra)].clone() * k,
                    "cv_mulassign" => c[ci(d)] *= k,
                    "cv_addv" => c[ci(d)] = c[ci(ra)].clone() + v,
                    "cv_subv" => c[ci(d)] = c[ci(ra)].clone() - v,
                    "cv_add" => c[ci(d)] = if f == 0 { c[ci(ra)].clone() + &c[ci(rb)] } else { &c[ci(ra)] + &c[ci(rb)] },
                    "cv_sub" => c[ci(d)] = if f == 0 { c[ci(ra)].clone() - &c[ci(rb)] } else { &c[ci(ra)] - &c[ci(rb)] },
                    "cv_addc" => c[ci(d)] = c[ci(ra)].clone() + (k, &c[ci(rb)]),
                    "cv_subc" => c[ci(d)] = c[ci(ra)].clone() - (k, &c[ci(rb)]),
                    o => unreachable!("{}", o),
                }
            });
            let t = if d <= 4 { terms(&l[li(d)]) } else { cterms(&c[ci(d)]) };
            let mut o = e.clone();
            o["ev"] = json!("op"); o["inst"] = json!(n); o["r"] = json!(t);
            o["res"] = json!(if r.is_ok() { "ok" } else { "panic" });
            out.put(&o);
            if r.is_err() { break }
        }
    }
}
