//! cli-circ hash STRING: the native hash as zkp-prove records it.
//! cli-circ circuits: for each circuit of the tool, is the statement bound: does changing the
//! public input of a satisfied assignment violate a constraint?
#[path = "/repo/cli/src/circuits/mod.rs"]
mod circuits;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use ark_serialize::CanonicalSerialize;
use circuits::{hash::Hash, mini::Mini, CliCircuit};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

#[derive(Default)]
struct Rec { inputs: Vec<Fr>, aux: Vec<Fr>, cons: Vec<[Vec<(Variable, Fr)>; 3]> }
fn lc(l: LinearCombination<Fr>) -> Vec<(Variable, Fr)> { l.as_ref().to_vec() }
impl Rec {
    fn at(&self, l: &[(Variable, Fr)]) -> Fr {
        l.iter().fold(Fr::zero(), |s, (v, c)| s + *c * match v.get_unchecked() { Index::Input(i) => self.inputs[i], Index::Aux(i) => self.aux[i] })
    }
    fn sat(&self) -> bool { self.cons.iter().all(|[a, b, c]| self.at(a) * self.at(b) == self.at(c)) }
}
impl ConstraintSystem<Fr> for Rec {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        self.aux.push(f()?);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        self.inputs.push(f()?);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr>, LB: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr>, LC: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr> {
        let z = LinearCombination::zero;
        self.cons.push([lc(a(z())), lc(b(z())), lc(c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
    fn num_constraints(&self) -> usize { self.cons.len() }
}
fn look<C: CliCircuit<Fr>>(name: &str, args: &[&str]) {
    let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let (c, _) = C::power_on(&a);
    let mut cs = Rec { inputs: vec![Fr::one()], ..Default::default() };
    c.generate_constraints(&mut cs).unwrap();
    let honest = cs.sat();
    let mut bound = true;
    for i in 1..cs.inputs.len() {
        let v = cs.inputs[i];
        cs.inputs[i] += Fr::one();
        bound &= !cs.sat();
        cs.inputs[i] = v.double();
        bound &= !cs.sat();
        cs.inputs[i] = v;
    }
    println!("{{\"circuit\":\"{}\",\"inputs\":{},\"honest\":{},\"bound\":{}}}", name, cs.inputs.len() - 1, honest, bound);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "hash" {
        let mut b = vec![];
        zkp_gadgets::hashes::mimc::hash::<Fr>(a[2].as_bytes()).serialize(&mut b).unwrap();
        println!("{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    } else {
        look::<Mini<Fr>>("mini", &["2", "3", "10"]);
        look::<Hash<Fr>>("hash", &["iamsecret"]);
    }
}
