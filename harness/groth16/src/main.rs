use ark_serialize::*;
mod codec;
use mock::hist::Scheme;
use mock::*;
use zkp_groth16::*;

pub struct G16<const P: u64>;
impl<const P: u64> Scheme for G16<P> {
    type Pk = Parameters<Eng<P>>;
    type Vk = PreparedVerifyingKey<Eng<P>>;
    type Proof = Proof<Eng<P>>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        let p = generate_random_parameters::<Eng<P>, _, _>(c.with(None, None), &mut rng(seed)).map_err(|e| format!("{:?}", e))?;
        let vk = prepare_verifying_key(&p.vk);
        Ok((p, vk))
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String> {
        create_random_proof(pk, c.with(Some(x), Some(w)), &mut rng(seed)).map_err(|e| format!("{:?}", e))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        let x: Vec<Fp<P>> = x.iter().map(|v| Fp::i(*v)).collect();
        verify_proof(vk, p, &x).map_err(|e| format!("{:?}", e))
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { let mut b = vec![]; p.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { Proof::deserialize(b).ok() }
    fn edges(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64]) -> Vec<Box<dyn Fn() -> Result<Self::Proof, String>>> {
        let mut v: Vec<Box<dyn Fn() -> Result<Self::Proof, String>>> = vec![];
        let (pk, c, x, w) = (pk.clone(), c.clone(), x.to_vec(), w.to_vec());
        let all = std::rc::Rc::new((pk, c, x, w));
        for (r, s) in vec![(0, 0), (0, 5), (5, 0), (1, 1), (-1, 1), (3, -1), (7, 11)] {
            let a = all.clone();
            v.push(Box::new(move || prover::create_proof(&a.0, a.1.with(Some(&a.2), Some(&a.3)), Fp::i(r), Fp::i(s)).map_err(|e| format!("{:?}", e))));
        }
        let a = all.clone();
        v.push(Box::new(move || prover::create_proof_no_zk(&a.0, a.1.with(Some(&a.2), Some(&a.3))).map_err(|e| format!("{:?}", e))));
        v
    }
}

impl<const P: u64> par::Keys for G16<P> {
    fn keys(pk: &Self::Pk, _: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> { let mut b = vec![]; pk.serialize_uncompressed(&mut b).unwrap(); vec![("parameters", b)] }
}
/// the same over the real curve
struct Real;
type RE = ark_bls12_381::Bls12_381;
impl Scheme for Real {
    type Pk = Parameters<RE>;
    type Vk = PreparedVerifyingKey<RE>;
    type Proof = Proof<RE>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        let p = generate_random_parameters::<RE, _, _>(c.with(None, None), &mut rng(seed)).map_err(|e| format!("{:?}", e))?;
        let vk = prepare_verifying_key(&p.vk);
        Ok((p, vk))
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String> {
        create_random_proof(pk, c.with(Some(x), Some(w)), &mut rng(seed)).map_err(|e| format!("{:?}", e))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        verify_proof(vk, p, &x.iter().map(|v| fi(*v)).collect::<Vec<_>>()).map_err(|e| format!("{:?}", e))
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { let mut b = vec![]; p.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { Proof::deserialize(b).ok() }
}
impl par::Keys for Real {
    fn keys(pk: &Self::Pk, _: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> { let mut b = vec![]; pk.serialize_uncompressed(&mut b).unwrap(); vec![("parameters", b)] }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[3]);
    match a[1].as_str() {
        m @ "complete" | m @ "sound" => hist::run::<G16<GOLD>>(&read_lines(&a[2]), &mut out, m, seed()),
        "codec" => codec::main(&read_lines(&a[2]), &read_lines(&a[4]), &mut out),
        "blind" => for (n, inst) in read_lines(&a[2]).iter().enumerate() {
            const Q: u64 = 12289;
            let sd = seed() * 1_000_003 + n as u64 * 1009;
            let (c, x, ws) = (Circ::from_json(inst), inst.ints("x"), blind::variants(&inst.ints("w")));
            let k = match guarded(|| G16::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k.0, _ => continue };
            blind::run::<Q>(&mut out, n, "groth16", sd, ws.len(), &|_| vec![("commitments", vec![("a".into(), 0), ("b".into(), 1)])],
                &|r, v| { create_random_proof(&k, c.with(Some(&x), Some(&ws[v])), r).ok().map(|p| G16::<Q>::ser(&p)) });
        },
        "par" => {
            let v = read_lines(&a[2]);
            par::run::<G16<GOLD>>(&v, &mut out, seed(), &[0, 3, 33, 120, 0, 9, 700, 1]);
            par::run::<Real>(&v[..v.len().min(if thorough() { 12 } else { 2 })], &mut out, seed(), &[9, 40]);
        }
        m => panic!("mode {}", m),
    }
}
