//! A recording constraint system: every wire, its value and every constraint, numbered in allocation order.
pub use ark_ff::{Field, FpParameters, PrimeField};
pub use mock::*;
pub use zkp_gadgets::algebra::boolean::{AllocatedBit, Boolean};
pub use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub struct Rec<F: PrimeField> {
    /// setup mode: witnesses do not exist and closures are never run
    pub setup: bool,
    pub vals: Vec<F>,
    pub ins: Vec<usize>,
    pub auxs: Vec<usize>,
    pub cons: Vec<[Vec<(usize, F)>; 3]>,
    pub depth: i64,
    pub names: Vec<String>,
}
impl<F: PrimeField> Rec<F> {
    pub fn new(setup: bool) -> Self { Rec { setup, vals: vec![F::one()], ins: vec![0], auxs: vec![], cons: vec![], depth: 0, names: vec!["ONE".into()] } }
    pub fn wire(&self, v: Variable) -> usize { match v.get_unchecked() { Index::Input(i) => self.ins[i], Index::Aux(i) => self.auxs[i] } }
    /// linear combination by wire, merged and without zero terms
    pub fn lc(&self, l: &LinearCombination<F>) -> Vec<(usize, F)> {
        let mut m = std::collections::BTreeMap::new();
        for (v, c) in l.as_ref() { *m.entry(self.wire(*v)).or_insert_with(F::zero) += c; }
        m.into_iter().filter(|x| !x.1.is_zero()).collect()
    }
    fn put<FN: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: FN) -> Result<usize, SynthesisError> {
        let v = if self.setup { F::zero() } else { f()? };
        self.vals.push(v);
        Ok(self.vals.len() - 1)
    }
    /// the wire allocated under this name, else the n-th private one
    pub fn named(&self, name: &str, n: usize) -> usize { self.names.iter().position(|x| x == name).unwrap_or(self.auxs[n]) }
    pub fn same_shape(&self, o: &Self) -> bool { self.cons == o.cons && self.ins == o.ins && self.auxs == o.auxs }
}
impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, n: A, f: FN) -> Result<Variable, SynthesisError>
    where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let w = self.put(f)?;
        self.names.push(n().into());
        self.auxs.push(w);
        Ok(Variable::new_unchecked(Index::Aux(self.auxs.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, n: A, f: FN) -> Result<Variable, SynthesisError>
    where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let w = self.put(f)?;
        self.names.push(n().into());
        self.ins.push(w);
        Ok(Variable::new_unchecked(Index::Input(self.ins.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
          LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>, LC: FnOnce(LinearCombination<F>) -> LinearCombination<F> {
        let (a, b, c) = (a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero()));
        let t = [self.lc(&a), self.lc(&b), self.lc(&c)];
        self.cons.push(t);
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR { self.depth += 1; }
    fn pop_namespace(&mut self) { self.depth -= 1; }
    fn get_root(&mut self) -> &mut Self { self }
    fn num_constraints(&self) -> usize { self.cons.len() }
}

pub fn num<F: PrimeField>(f: &F) -> i64 {
    let r = f.into_repr();
    let l = r.as_ref();
    assert!(l[1..].iter().all(|x| *x == 0) && l[0] < (1 << 31));
    l[0] as i64
}
pub fn jlc<F: PrimeField>(l: &[(usize, F)]) -> Value { Value::Array(l.iter().map(|(w, c)| json!([w, num(c)])).collect()) }
/// constraints sorted by the last wire they touch: [last, A, B, C]
pub fn jsys<F: PrimeField>(cs: &Rec<F>) -> Vec<Value> {
    let mut v: Vec<(usize, Value)> = cs.cons.iter().map(|c| {
        let m = c.iter().flat_map(|l| l.iter().map(|x| x.0)).max().unwrap_or(0);
        (m, json!([m, jlc(&c[0]), jlc(&c[1]), jlc(&c[2])]))
    }).collect();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
pub fn jvals<F: PrimeField>(cs: &Rec<F>) -> Value { Value::Array(cs.vals.iter().map(|v| json!(num(v))).collect()) }

/// operand description of the specification: {t: "c"|"i"|"n", b: constant or bit index}
pub fn operand(d: &Value, bits: &[AllocatedBit]) -> Boolean {
    let b = d.us("b");
    match d.st("t") { "c" => Boolean::constant(b == 1), "i" => Boolean::Is(bits[b]), "n" => Boolean::Not(bits[b]), o => unreachable!("{}", o) }
}
pub fn jerr(e: SynthesisError) -> String { format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string() }
pub mod det;
