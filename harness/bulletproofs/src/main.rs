use ark_serialize::*;
mod codec;
mod fsx;
mod simx;
use mock::hist::Scheme;
use mock::*;
use zkp_bulletproofs::*;

fn e<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
fn by<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut b = vec![]; t.serialize(&mut b).unwrap(); b }
pub struct Bp<const P: u64>;
/// Bulletproofs has no setup: the prover derives generators from its RNG. The driver fixes the RNG
/// seed of a "key", so that every proof under it has the same generators and circuit.
pub struct Key<const P: u64> { gens: Vec<u8>, r1cs: Vec<u8>, seed: u64 }
impl<const P: u64> Scheme for Bp<P> {
    type Pk = Key<P>;
    type Vk = Key<P>;
    type Proof = Vec<u8>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        // any assignment gives the circuit
        let (x, w) = (vec![1i64; c.ni], vec![1i64; c.na]);
        let (g, r, _) = create_random_proof::<Eng<P>, _, _>(c.with(Some(&x), Some(&w)), &mut rng(seed)).map_err(e)?;
        let k = || Key { gens: by(&g), r1cs: by(&r), seed };
        Ok((k(), k()))
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], _seed: u64) -> Result<Self::Proof, String> {
        let (g, _, p) = create_random_proof::<Eng<P>, _, _>(c.with(Some(x), Some(w)), &mut rng(pk.seed)).map_err(e)?;
        if by(&g) != pk.gens { return Err("generators depend on the witness".into()); }
        Ok(by(&p))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        let x: Vec<Fp<P>> = x.iter().map(|v| Fp::i(*v)).collect();
        let g = Generators::<Eng<P>>::deserialize(&vk.gens[..]).map_err(e)?;
        let r = R1csCircuit::<Eng<P>>::deserialize(&vk.r1cs[..]).map_err(e)?;
        let p = Proof::<Eng<P>>::deserialize(&p[..]).map_err(e)?;
        verify_proof(&g, &p, &r, &x).map_err(e)
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { p.clone() }
    fn de(b: &[u8]) -> Option<Self::Proof> { Proof::<Eng<P>>::deserialize(b).ok().map(|_| b.to_vec()) }
    fn trusted() -> bool { false }
}

impl<const P: u64> par::Keys for Bp<P> {
    fn keys(pk: &Self::Pk, _: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> { vec![("generators", pk.gens.clone()), ("circuit", pk.r1cs.clone())] }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[3]);
    match a[1].as_str() {
        m @ "complete" | m @ "sound" => hist::run::<Bp<GOLD>>(&read_lines(&a[2]), &mut out, m, seed()),
        "fs" => fsx::run::<GOLD>(&read_lines(&a[2]), &mut out),
        "codec" => codec::main(&read_lines(&a[2]), &read_lines(&a[4]), &mut out),
        "blind" => for (n, inst) in read_lines(&a[2]).iter().enumerate() {
            const Q: u64 = 12289;
            let sd = seed() * 1_000_003 + n as u64 * 1009;
            let (c, x, ws) = (Circ::from_json(inst), inst.ints("x"), blind::variants(&inst.ints("w")));
            blind::run::<Q>(&mut out, n, "bulletproofs", sd, ws.len(), &|b| {
                let at = fsx::words_of(b).0;
                let pick = |no: &[&str]| at.iter().filter(|(n, _)| !no.contains(&n.0.as_str())).map(|(n, i)| (format!("{}.{}", n.0, n.2), *i)).collect::<Vec<_>>();
                vec![("commitments", pick(&["mu", "tau_x", "l_x", "r_x", "t_x", "L", "R", "P"])), ("responses", pick(&["S", "t_x", "T_2", "L", "R", "P"]))]
            }, &|r, v| create_random_proof::<Eng<Q>, _, _>(c.with(Some(&x), Some(&ws[v])), r).ok().map(|p| by(&p.2)));
        },
        "par" => par::run::<Bp<GOLD>>(&read_lines(&a[2]), &mut out, seed(), &[0, 3, 20, 0, 1, 90]),
        "sim" => simx::main(&read_lines(&a[2]), None, vec![], &mut out),
        "judge" => simx::main(&read_lines(&a[2]), Some(read_lines(&a[5])), read_lines(&a[6]), &mut out),
        m => panic!("mode {}", m),
    }
}
