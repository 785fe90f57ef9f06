//! R1CS instances exchanged with the TLA+ specifications.
use crate::io::J;
use crate::Fp;
use serde_json::{json, Value};
use zkp_r1cs::*;

/// term = (kind, index, coefficient): kind 0 = input (0 is the constant ONE), 1 = aux
pub type Terms = Vec<(u8, usize, i64)>;
#[derive(Clone, Debug)]
pub struct Circ {
    pub ni: usize,
    pub na: usize,
    pub cons: Vec<[Terms; 3]>,
    /// allocation order: 0 = input, 1 = aux
    pub order: Vec<u8>,
}
impl Circ {
    pub fn from_json(v: &Value) -> Circ {
        let t = |x: &Value| -> Terms {
            x.as_array().unwrap().iter().map(|y| (y[0].as_i64().unwrap() as u8, y[1].as_i64().unwrap() as usize, y[2].as_i64().unwrap())).collect()
        };
        let (ni, na) = (v.us("ni"), v.us("na"));
        let order = match v.get("order") {
            Some(Value::Array(a)) => a.iter().map(|x| x.as_i64().unwrap() as u8).collect(),
            _ => std::iter::repeat(0).take(ni).chain(std::iter::repeat(1).take(na)).collect(),
        };
        Circ { ni, na, order, cons: v.arr("cons").iter().map(|c| [t(&c["a"]), t(&c["b"]), t(&c["c"])]).collect() }
    }
    pub fn to_json(&self) -> Value {
        let t = |x: &Terms| -> Value { Value::Array(x.iter().map(|(k, i, c)| json!([k, i, c])).collect()) };
        json!({"ni": self.ni, "na": self.na, "order": self.order,
            "cons": self.cons.iter().map(|c| json!({"a": t(&c[0]), "b": t(&c[1]), "c": t(&c[2])})).collect::<Vec<_>>()})
    }
    pub fn eval<const P: u64>(&self, t: &Terms, x: &[i64], w: &[i64]) -> Fp<P> {
        t.iter().map(|(k, i, c)| {
            let v = if *k == 0 { if *i == 0 { Fp::i(1) } else { Fp::i(x[*i - 1]) } } else { Fp::i(w[*i]) };
            v * Fp::<P>::i(*c)
        }).sum()
    }
    pub fn holds<const P: u64>(&self, x: &[i64], w: &[i64]) -> bool {
        self.cons.iter().all(|c| self.eval::<P>(&c[0], x, w) * self.eval::<P>(&c[1], x, w) == self.eval::<P>(&c[2], x, w))
    }
    /// with an assignment (prover side) or without (setup side)
    pub fn with<F>(&self, x: Option<&[i64]>, w: Option<&[i64]>) -> Synth<F> {
        Synth { c: self.clone(), x: x.map(|v| v.to_vec()), w: w.map(|v| v.to_vec()), _f: std::marker::PhantomData }
    }
}
pub fn fi<F: ark_ff::PrimeField>(v: i64) -> F {
    if v >= 0 { F::from(v as u64) } else { -F::from(v.unsigned_abs()) }
}
#[derive(Clone)]
pub struct Synth<F> { pub c: Circ, pub x: Option<Vec<i64>>, pub w: Option<Vec<i64>>, _f: std::marker::PhantomData<F> }
impl<F: ark_ff::PrimeField> ConstraintSynthesizer<F> for Synth<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (mut ins, mut auxs) = (vec![CS::one()], vec![]);
        for k in &self.c.order {
            if *k == 0 {
                let i = ins.len() - 1;
                let v = self.x.as_ref().map(|x| fi::<F>(x[i]));
                ins.push(cs.alloc_input(|| format!("in{}", i), || v.ok_or(SynthesisError::AssignmentMissing))?);
            } else {
                let i = auxs.len();
                let v = self.w.as_ref().map(|x| fi::<F>(x[i]));
                auxs.push(cs.alloc(|| format!("aux{}", i), || v.ok_or(SynthesisError::AssignmentMissing))?);
            }
        }
        for (n, c) in self.c.cons.iter().enumerate() {
            let lc = |t: &Terms| {
                let mut l = LinearCombination::<F>::zero();
                for (k, i, co) in t { l = l + (fi::<F>(*co), if *k == 0 { ins[*i] } else { auxs[*i] }); }
                l
            };
            let (a, b, cc) = (lc(&c[0]), lc(&c[1]), lc(&c[2]));
            cs.enforce(|| format!("c{}", n), |_| a, |_| b, |_| cc);
        }
        Ok(())
    }
}
