//! Replays constraint-system histories of ConsSys: nested namespaces are real nested `ns` scopes.
#![allow(dead_code)]
use mock::*;
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
#[path = "/repo/gadgets/src/test_constraint_system.rs"]
mod tcs;
use tcs::TestConstraintSystem;
type F = Fp<97>;
type T = TestConstraintSystem<F>;

fn lc(v: &Value) -> LinearCombination<F> {
    let mut l = LinearCombination::zero();
    for t in v.as_array().unwrap() {
        let i = t[1].as_u64().unwrap() as usize;
        let var = Variable::new_unchecked(if t[0] == "i" { Index::Input(i) } else { Index::Aux(i) });
        l = l + (F::i(t[2].as_i64().unwrap()), var);
    }
    l
}
fn path(v: &Value) -> String { v.as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect::<Vec<_>>().join("/") }
fn r(t: &str, v: i64, p: Vec<&str>) -> Value { json!({"t": t, "v": v, "p": p}) }

struct Run<'a> { ops: &'a [Value], at: usize, inst: usize, out: &'a mut Out, dead: bool }
impl<'a> Run<'a> {
    fn put(&mut self, e: &Value, res: Result<Value, String>) {
        let mut o = e.clone();
        o["inst"] = json!(self.inst);
        self.dead |= res.is_err();
        o["r"] = res.unwrap_or_else(|_| r("panic", 0, vec![]));
        self.out.put(&o);
    }
    /// runs until the scope is popped
    fn scope<CS: ConstraintSystem<F, Root = T>>(&mut self, cs: &mut CS) {
        while self.at < self.ops.len() && !self.dead {
            let e = self.ops[self.at].clone();
            self.at += 1;
            match e.st("op") {
                "push" => {
                    let name = e.st("name").to_string();
                    // the scope is left by dropping the namespace
                    let by_ref = self.at % 3 == 0;
                    if by_ref {
                        let mut r2 = &mut *cs;
                        match guarded(|| ConstraintSystem::ns(&mut r2, || name)) {
                            Ok(mut sub) => { self.put(&e, Ok(r("unit", 0, vec![]))); self.scope(&mut sub); }
                            Err(m) => self.put(&e, Err(m)),
                        }
                        continue;
                    }
                    match guarded(|| cs.ns(|| name)) {
                        Ok(mut sub) => { self.put(&e, Ok(r("unit", 0, vec![]))); self.scope(&mut sub); }
                        Err(m) => self.put(&e, Err(m)),
                    }
                }
                "pop" => { self.put(&e, Ok(r("unit", 0, vec![]))); return; }
                // every other call goes through the implementation for references
                _ => { let by_ref = self.at % 2 == 0; let v = guarded(|| if by_ref { step(&mut &mut *cs, &e) } else { step(cs, &e) }); self.put(&e, v); }
            }
        }
    }
}
/// the constraints a text shows: `name: (lc) * (lc) = (lc)`, terms as ` + 2^1 . 2 . `var``
fn shown(s: &str) -> Vec<Value> {
    s.lines().filter(|l| !l.is_empty()).map(|l| {
        let bad = || json!({"p": ["unreadable"], "a": [], "b": [], "c": []});
        let (name, rest) = match l.find(": (") { Some(i) => (&l[..i], &l[i + 2..]), None => return bad() };
        let (a, rest) = match rest.find(") * (") { Some(i) => (&rest[..i + 1], &rest[i + 4..]), None => return bad() };
        let (b, c) = match rest.find(") = (") { Some(i) => (&rest[..i + 1], &rest[i + 4..]), None => return bad() };
        json!({"p": name.split('/').collect::<Vec<_>>(), "a": terms(a), "b": terms(b), "c": terms(c)})
    }).collect()
}
fn terms(s: &str) -> Vec<Value> {
    let parts = s.trim_start_matches('(').trim_end_matches(')').split('`').collect::<Vec<_>>();
    (0..parts.len() / 2).map(|i| {
        let (pre, var) = (parts[2 * i], parts[2 * i + 1]);
        let k = pre.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse::<i64>().ok()).last().unwrap_or(1);
        json!({"v": var.split('/').collect::<Vec<_>>(), "c": F::i(if pre.contains('-') { -k } else { k }).raw()})
    }).collect()
}
fn ix(v: Result<Variable, SynthesisError>) -> Value {
    match v.map(|v| v.get_unchecked()) { Ok(Index::Input(i)) => r("inp", i as i64, vec![]), Ok(Index::Aux(i)) => r("aux", i as i64, vec![]), Err(_) => r("err", 0, vec![]) }
}
fn step<CS: ConstraintSystem<F, Root = T>>(cs: &mut CS, e: &Value) -> Value {
    let val = |v: i64| r("val", v, vec![]);
    let num = |f: F| f.raw() as i64;
    match e.st("op") {
        "alloc" | "input" => {
            let (name, v, err) = (e.st("name").to_string(), F::i(e["v"].as_i64().unwrap()), e["err"].as_bool().unwrap());
            let f = || if err { Err(SynthesisError::AssignmentMissing) } else { Ok(v) };
            ix(if e.st("op") == "alloc" { cs.alloc(|| name, f) } else { cs.alloc_input(|| name, f) })
        }
        "enforce" => {
            let name = e.st("name").to_string();
            cs.enforce(|| name, |l| l + &lc(&e["a"]), |l| l + &lc(&e["b"]), |l| l + &lc(&e["c"]));
            r("unit", 0, vec![])
        }
        "set" => { cs.get_root().set(&path(&e["path"]), F::i(e["v"].as_i64().unwrap())); r("unit", 0, vec![]) }
        "get" => val(num(cs.get_root().get(&path(&e["path"])))),
        "print" => json!({"t": "shown", "v": 0, "p": shown(&cs.get_root().pretty_print())}),
        "hash" => json!({"t": "hash", "v": 0, "p": [], "h": cs.get_root().hash()}),
        "ncons" => val(T::num_constraints(cs.get_root()) as i64),
        "ninputs" => val(cs.get_root().num_inputs() as i64),
        "get_input" => val(num(cs.get_root().get_input(e.us("i"), &path(&e["path"])))),
        "sat" => val(cs.get_root().is_satisfied() as i64),
        "which" => match cs.get_root().which_is_unsatisfied() {
            None => r("none", 0, vec![]),
            Some(p) => json!({"t": "path", "v": 0, "p": p.split('/').collect::<Vec<_>>()}),
        },
        "verify" => val(cs.get_root().verify(&e.ints("vals").iter().map(|v| F::i(*v)).collect::<Vec<_>>()) as i64),
        o => unreachable!("{}", o),
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (n, inst) in read_lines(&a[1]).iter().enumerate() {
        let mut cs = T::new();
        let mut run = Run { ops: inst.arr("ops"), at: 0, inst: n, out: &mut out, dead: false };
        run.scope(&mut cs);
    }
    // the count through the trait, as generic code sees it
    fn count<CS: ConstraintSystem<F>>(cs: &CS) -> usize { cs.num_constraints() }
    let r = guarded(|| count(&T::new()));
    std::fs::write(&a[3], match r { Ok(0) => "ok", Ok(_) => "wrong", Err(_) => "panic" }).unwrap();
}
