use ark_serialize::*;
mod codec;
use mock::hist::Scheme;
use mock::*;
use zkp_spartan::{nizk, snark};
mod fsx;
mod simx;

fn e<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
pub struct Nizk<const P: u64>;
type F<const P: u64> = Fp<P>;
pub struct Pk<K, const P: u64> { k: K, h: Vec<F<P>> }
impl<const P: u64> Scheme for Nizk<P> {
    type Pk = Pk<nizk::ProveKey<Eng<P>>, P>;
    type Vk = Pk<nizk::VerifyKey<Eng<P>>, P>;
    type Proof = nizk::Proof<Eng<P>>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        let p = nizk::generate_random_parameters::<Eng<P>, _, _>(c.with(None, None), &mut rng(seed)).map_err(e)?;
        let h = vec![p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        let (pk, vk) = p.keypair();
        Ok((Pk { k: pk, h: h.clone() }, Pk { k: vk, h }))
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String> {
        nizk::create_random_proof(&pk.k, c.with(Some(x), Some(w)), pk.h[0], pk.h[1], &mut rng(seed)).map_err(e)
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        let x: Vec<Fp<P>> = x.iter().map(|v| Fp::i(*v)).collect();
        nizk::verify_proof(&vk.k, p, &x, vk.h[0], vk.h[1]).map_err(e)
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { let mut b = vec![]; p.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { CanonicalDeserialize::deserialize(b).ok() }
    fn trusted() -> bool { false }
}
pub struct Snark<const P: u64>;
impl<const P: u64> Scheme for Snark<P> {
    type Pk = Pk<snark::ProveKey<Eng<P>>, P>;
    type Vk = Pk<snark::VerifyKey<Eng<P>>, P>;
    type Proof = snark::Proof<Eng<P>>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        let p = snark::generate_random_parameters::<Eng<P>, _, _>(c.with(None, None), &mut rng(seed)).map_err(e)?;
        let h = vec![p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
        let (pk, vk) = p.keypair();
        Ok((Pk { k: pk, h: h.clone() }, Pk { k: vk, h }))
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String> {
        snark::create_random_proof(&pk.k, c.with(Some(x), Some(w)), pk.h[0], pk.h[1], pk.h[2], &mut rng(seed)).map_err(e)
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        let x: Vec<Fp<P>> = x.iter().map(|v| Fp::i(*v)).collect();
        snark::verify_proof(&vk.k, p, &x, vk.h[0], vk.h[1], vk.h[2]).map_err(e)
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { let mut b = vec![]; p.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { CanonicalDeserialize::deserialize(b).ok() }
    fn trusted() -> bool { false }
}

fn by<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut b = vec![]; t.serialize_uncompressed(&mut b).unwrap(); b }
impl<const P: u64> par::Keys for Nizk<P> {
    fn keys(pk: &Self::Pk, vk: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> { vec![("pk", by(&pk.k)), ("vk", by(&vk.k)), ("hashes", by(&pk.h))] }
}
impl<const P: u64> par::Keys for Snark<P> {
    fn keys(pk: &Self::Pk, vk: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> { vec![("pk", by(&pk.k)), ("vk", by(&vk.k)), ("hashes", by(&pk.h))] }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[3]);
    match a[1].as_str() {
        m @ "complete" | m @ "sound" => if a[4] == "nizk" {
            hist::run::<Nizk<GOLD>>(&read_lines(&a[2]), &mut out, m, seed())
        } else {
            hist::run::<Snark<GOLD>>(&read_lines(&a[2]), &mut out, m, seed())
        },
        "blind" => {
            const Q: u64 = 12289;
            for (n, inst) in read_lines(&a[2]).iter().enumerate() {
                let sd = seed() * 1_000_003 + n as u64 * 1009;
                let (c, x, ws) = (Circ::from_json(inst), inst.ints("x"), blind::variants(&inst.ints("w")));
                if a[4] == "nizk" {
                    let k = match guarded(|| Nizk::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k.0, _ => continue };
                    blind::run::<Q>(&mut out, n, "spartan-nizk", sd, ws.len(), &fsx::blinded_nizk::<Q>,
                        &|r, v| nizk::create_random_proof(&k.k, c.with(Some(&x), Some(&ws[v])), k.h[0], k.h[1], r).ok().map(|p| Nizk::<Q>::ser(&p)));
                } else {
                    let k = match guarded(|| Snark::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k.0, _ => continue };
                    blind::run::<Q>(&mut out, n, "spartan-snark", sd, ws.len(), &fsx::blinded_snark::<Q>,
                        &|r, v| snark::create_random_proof(&k.k, c.with(Some(&x), Some(&ws[v])), k.h[0], k.h[1], k.h[2], r).ok().map(|p| Snark::<Q>::ser(&p)));
                }
            }
        }
        "par" => if a[4] == "nizk" { par::run::<Nizk<GOLD>>(&read_lines(&a[2]), &mut out, seed(), &[0, 3, 20, 0, 1, 90]) } else { par::run::<Snark<GOLD>>(&read_lines(&a[2]), &mut out, seed(), &[0, 3, 12, 0, 1, 50]) },
        "fs" => if a[4] == "nizk" { fsx::nizk::<GOLD>(&read_lines(&a[2]), &mut out) } else { fsx::snark::<GOLD>(&read_lines(&a[2]), &mut out) },
        "codec" => codec::main(&read_lines(&a[2]), &read_lines(&a[4]), &mut out, &a[5]),
        "sim" => simx::main(&read_lines(&a[2]), None, vec![], &mut out, &a[4]),
        "judge" => simx::main(&read_lines(&a[2]), Some(read_lines(&a[5])), read_lines(&a[6]), &mut out, &a[4]),
        m => panic!("mode {}", m),
    }
}
