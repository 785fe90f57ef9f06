//! h-contract INST TRACE BINDIR SCRATCH: transactions for the on-chain verifiers.  The cells of each
//! instance are put together from documents (verification keys, proofs, public values of several
//! key pairs and statements), the contract is run on them, and the library verifies the same bytes.
use ark_bls12_381::{Bls12_381 as E, Fr};
use ark_ff::{One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use ark_serialize::*;
use blake2::Blake2s;
use mock::{io::*, rng};
use serde_json::{json, Value};
use std::collections::HashMap;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

type PC = MarlinKZG10<E, DensePolynomial<Fr>>;
type Pl = zkp_plonk::Plonk<Fr, Blake2s, PC>;

/// x * (y + c) = z
#[derive(Clone)]
struct Mini { x: Option<Fr>, y: Option<Fr>, z: Option<Fr>, c: u64, n: usize }
impl ConstraintSynthesizer<Fr> for Mini {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc(|| "x", || self.x.ok_or(SynthesisError::AssignmentMissing))?;
        let y = cs.alloc(|| "y", || self.y.ok_or(SynthesisError::AssignmentMissing))?;
        // z is public; in other circuits it is not, or x + y is as well
        let z = if self.n == 0 { cs.alloc(|| "z", || self.z.ok_or(SynthesisError::AssignmentMissing))? } else { cs.alloc_input(|| "z", || self.z.ok_or(SynthesisError::AssignmentMissing))? };
        if self.n == 2 {
            let s = cs.alloc_input(|| "s", || Ok(self.x.ok_or(SynthesisError::AssignmentMissing)? + self.y.unwrap()))?;
            cs.enforce(|| "x + y = s", |lc| lc + x + y, |lc| lc + CS::one(), |lc| lc + s);
        }
        for _ in 0..10 {
            cs.enforce(|| "x * (y + c) = z", |lc| lc + x, |lc| lc + y + (Fr::from(self.c), CS::one()), |lc| lc + z);
        }
        Ok(())
    }
}
fn f(x: u64) -> Fr { Fr::from(x) }
/// keys 1 and 2 belong to the contract's circuit, key 3 to another one, 4 and 5 to ones with more and fewer public values
fn cof(k: usize) -> u64 { if k == 3 { 3 } else { 2 } }
fn off(k: usize) -> Mini { Mini { x: None, y: None, z: None, c: cof(k), n: arity(k) } }
fn arity(k: usize) -> usize { match k { 4 => 2, 5 => 0, _ => 1 } }
/// statements: z is 10 or 21; a false witness misses it
fn wit(k: usize, s: usize, bad: bool) -> (u64, u64, u64) {
    let d = if k == 3 { 1 } else { 0 };
    let (x, y, z) = if s == 1 { (2, 3 - d, 10) } else { (3, 5 - d, 21) };
    (x, y + if bad { 1 } else { 0 }, z)
}
fn on(k: usize, s: usize, bad: bool) -> Mini {
    let (x, y, z) = wit(k, s, bad);
    Mini { x: Some(f(x)), y: Some(f(y)), z: Some(f(z)), c: cof(k), n: arity(k) }
}
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
fn raw<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize_unchecked(&mut v).unwrap(); v }

/// what a scheme offers: documents, and the library's verdict on bytes
struct Docs { vk: HashMap<usize, Vec<u8>>, proof: HashMap<(usize, usize, usize), Vec<u8>>, public: HashMap<(usize, usize), Vec<u8>> }
fn layers(k: usize) -> Vec<Vec<(u8, usize, usize)>> {
    vec![vec![(0, 1, 2), (1, 0, 4), (1, 3, 4), (1, 4, 4)], vec![(1, 0, 1), (1, 2, 3)], vec![(if k == 3 { 1 } else { 0 }, 0, 1)]]
}
fn composer(k: usize, s: usize, bad: bool) -> zkp_plonk::Composer<Fr> {
    let (x, y, _) = wit(1, s, false);
    let (x, y) = (f(x), f(y + 2));
    let q = f(if k == 3 { 2 } else { 1 });
    let mut cs = zkp_plonk::Composer::new();
    let vx = cs.alloc_and_assign(x + if bad { Fr::one() } else { Fr::zero() });
    let vy = cs.alloc_and_assign(y);
    let vz = cs.alloc_and_assign(q * x * y);
    cs.create_mul_gate(vx, vy, vz, None, q, Fr::zero(), Fr::zero());
    cs.create_add_gate((vx, Fr::one()), (vy, Fr::zero()), vx, None, Fr::zero(), Fr::zero());
    cs.constrain_to_constant(vz, Fr::zero(), q * x * y);
    cs
}
/// a proof without its last evaluation (2) or commitment (3)
fn short<T: CanonicalSerialize + CanonicalDeserialize>(b: &[u8], bad: usize, f: impl Fn(&mut T, usize)) -> Vec<u8> {
    let mut p = T::deserialize_unchecked(b).unwrap();
    f(&mut p, bad);
    raw(&p)
}
fn docs(scheme: &str) -> Docs {
    let mut d = Docs { vk: HashMap::new(), proof: HashMap::new(), public: HashMap::new() };
    for k in 1..=(if ["plonk", "libra", "hyrax"].contains(&scheme) { 3 } else { 5usize }) {
        let r = &mut rng(100 * k as u64);
        for s in 1..=2usize {
            d.public.insert((k, s), ser(&f(wit(k, s, false).2)));
        }
        let each: Vec<(usize, bool)> = vec![(1, false), (2, false), (1, true), (2, true)];
        macro_rules! proofs { ($p:expr) => { for (s, bad) in each { let c = on(k, s, bad); let got = guarded(|| $p(c, &mut rng(7 * k as u64 + s as u64))); if let Ok(v) = got { d.proof.insert((k, s, bad as usize), v); } } } }
        match scheme {
            "groth16" => {
                let p = zkp_groth16::generate_random_parameters::<E, _, _>(off(k), r).unwrap();
                d.vk.insert(k, raw(&p.vk));
                proofs!(|c, r: &mut _| raw(&zkp_groth16::create_random_proof(&p, c, r).unwrap()));
            }
            "bulletproofs" => {
                d.vk.insert(k, vec![k as u8]);
                proofs!(|c, r: &mut _| { let (g, q, p) = zkp_bulletproofs::create_random_proof::<E, _, _>(c, r).unwrap(); let mut v = ser(&g); v.extend(ser(&q)); v.extend(ser(&p)); v });
            }
            "marlin" => {
                let srs = zkp_marlin::universal_setup::<E, _>(1 << 7, r).unwrap();
                let (pk, vk) = zkp_marlin::index(&srs, off(k)).unwrap();
                d.vk.insert(k, ser(&vk));
                proofs!(|c, r: &mut _| ser(&zkp_marlin::create_random_proof(&pk, c, r).unwrap()));
            }
            "spartan_nizk" => {
                use zkp_spartan::nizk::*;
                let (pk, vk) = generate_random_parameters::<E, _, _>(off(k), r).unwrap().keypair();
                d.vk.insert(k, ser(&vk));
                proofs!(|c, r: &mut _| ser(&create_random_proof(&pk, c, pk.r1cs.r1cs_to_hash(), pk.params.param_to_hash(), r).unwrap()));
            }
            "spartan_snark" => {
                use zkp_spartan::snark::*;
                let (pk, vk) = generate_random_parameters::<E, _, _>(off(k), r).unwrap().keypair();
                d.vk.insert(k, ser(&vk));
                proofs!(|c, r: &mut _| ser(&create_random_proof(&pk, c, pk.r1cs.r1cs_to_hash(), pk.params.param_to_hash(), pk.encode_comm.encode_to_hash(), r).unwrap()));
            }
            "plonk" => {
                let srs = Pl::setup(8, r).unwrap();
                let ks = [Fr::one(), f(7), f(13), f(17)];
                let (pk, vk) = Pl::keygen(&srs, &composer(k, 1, false), ks).unwrap();
                d.vk.insert(k, raw(&vk));
                for (s, bad) in each {
                    let cs = composer(k, s, bad);
                    if !bad { d.public.insert((k, s), raw(&cs.public_inputs().to_vec())); }
                    if let Ok(v) = guarded(|| raw(&Pl::prove(&pk, &cs, &mut rng(7 * k as u64 + s as u64)).unwrap())) { d.proof.insert((k, s, bad as usize), v); }
                }
            }
            "libra" => {
                use zkp_libra::{circuit::Circuit, libra_zk_linear_gkr::ZKLinearGKRProof, params::Parameters};
                let params = Parameters::<E>::new(&mut rng(if k == 2 { 2 } else { 1 }), 8);
                d.vk.insert(k, ser(&params));
                let c = Circuit::new(4, 4, &layers(k));
                for s in 1..=2 {
                    let (x, y, z) = wit(1, s, false);
                    let (i, w) = (vec![f(2), -f(z), f(1), f(0)], vec![f(x), f(y), f(0), f(0)]);
                    let (p, o) = ZKLinearGKRProof::<E>::prover::<_>(&params, &c, &i, &w, c.circuit_to_hash::<E>(), params.param_to_hash(), &mut rng(7 * k as u64 + s as u64));
                    d.proof.insert((k, s, 0), ser(&p));
                    d.public.insert((k, s), ser(&(i, o)));
                }
            }
            "hyrax" => {
                use zkp_hyrax::{circuit::Circuit, hyrax_proof::HyraxProof, params::Parameters};
                let params = Parameters::<E>::new(&mut rng(if k == 2 { 2 } else { 1 }), 8);
                d.vk.insert(k, ser(&params));
                let c = Circuit::new(4, 4, &layers(k));
                for s in 1..=2 {
                    let (x, y, z) = wit(1, s, false);
                    let (i, w) = (vec![f(2), -f(z), f(1), f(0)], vec![f(x), f(y), f(0), f(0)]);
                    let (is, ws) = (vec![i.clone(), i], vec![w.clone(), w]);
                    let (p, o) = HyraxProof::<E>::prover::<_>(&params, &ws, &is, &c, c.circuit_to_hash::<E>(), params.param_to_hash(), ws.len(), &mut rng(7 * k as u64 + s as u64));
                    d.proof.insert((k, s, 0), ser(&p));
                    d.public.insert((k, s), ser(&(is, o)));
                }
            }
            _ => panic!("scheme"),
        }
        for s in 1..=2 {
            for bad in 2..=3 {
                let v = match (scheme, d.proof.get(&(k, s, 0))) {
                    ("marlin", Some(b)) => {
                        let p = zkp_marlin::Proof::<E>::deserialize(&b[..]).unwrap();
                        ser(&zkp_marlin::Proof::<E>::deserialize_unchecked(&short::<zkp_marlin::Proof<E>>(&raw(&p), bad, |p, m| { if m == 2 { p.evaluations.pop(); } else { p.commitments.pop(); } })[..]).unwrap())
                    }
                    ("plonk", Some(b)) => short::<zkp_plonk::Proof<Fr, PC>>(b, bad, |p, m| { if m == 2 { p.evaluations.pop(); } else { p.commitments.pop(); } }),
                    _ => continue,
                };
                d.proof.insert((k, s, bad), v);
            }
        }
    }
    d
}
fn lib(scheme: &str, vk: &[u8], proof: &[u8], public: &[u8]) -> Option<bool> {
    macro_rules! de { ($t:ty, $b:expr) => { <$t>::deserialize($b).ok()? } }
    macro_rules! un { ($t:ty, $b:expr) => { <$t>::deserialize_unchecked($b).ok()? } }
    Some(match scheme {
        "groth16" => {
            let (v, p, x) = (un!(zkp_groth16::VerifyKey<E>, vk), un!(zkp_groth16::Proof<E>, proof), un!(Fr, public));
            zkp_groth16::verify_proof(&zkp_groth16::prepare_verifying_key(&v), &p, &[x]).ok()?
        }
        "bulletproofs" => {
            use zkp_bulletproofs::*;
            let (g, q, p) = de!((Generators<E>, R1csCircuit<E>, Proof<E>), proof);
            verify_proof(&g, &p, &q, &[de!(Fr, public)]).ok()?
        }
        "marlin" => zkp_marlin::verify_proof(&de!(zkp_marlin::VerifyKey<E>, vk), &de!(zkp_marlin::Proof<E>, proof), &[de!(Fr, public)]).ok()?,
        "spartan_nizk" => {
            use zkp_spartan::nizk::*;
            let v = de!(VerifyKey<E>, vk);
            verify_proof(&v, &de!(Proof<E>, proof), &[de!(Fr, public)], v.r1cs.r1cs_to_hash(), v.params.param_to_hash()).ok()?
        }
        "spartan_snark" => {
            use zkp_spartan::snark::*;
            let v = de!(VerifyKey<E>, vk);
            verify_proof(&v, &de!(Proof<E>, proof), &[de!(Fr, public)], v.r1cs.r1cs_to_hash(), v.params.param_to_hash(), v.encode_comm.encode_to_hash()).ok()?
        }
        "plonk" => Pl::verify(&un!(zkp_plonk::VerifierKey<Fr, PC>, vk), &un!(Vec<Fr>, public), un!(zkp_plonk::Proof<Fr, PC>, proof)).ok()?,
        "libra" => {
            let (v, (i, o)) = (de!(zkp_libra::params::Parameters<E>, vk), de!((Vec<Fr>, Vec<Fr>), public));
            let c = zkp_libra::circuit::Circuit::new(4, 4, &layers(1));
            de!(zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<E>, proof).verify(&v, &c, &o, &i, c.circuit_to_hash::<E>(), v.param_to_hash())
        }
        "hyrax" => {
            let (v, (i, o)) = (de!(zkp_hyrax::params::Parameters<E>, vk), de!((Vec<Vec<Fr>>, Vec<Vec<Fr>>), public));
            let c = zkp_hyrax::circuit::Circuit::new(4, 4, &layers(1));
            de!(zkp_hyrax::hyrax_proof::HyraxProof<E>, proof).verify(&v, &o, &i, &c, c.circuit_to_hash::<E>(), v.param_to_hash())
        }
        _ => panic!("scheme"),
    })
}
fn bin(scheme: &str) -> &'static str {
    match scheme {
        "groth16" => "universal_groth16_verifier", "bulletproofs" => "mini_bulletproofs_verifier", "marlin" => "universal_marlin_verifier",
        "spartan_nizk" => "universal_spartan_nizk_verifier", "spartan_snark" => "universal_spartan_snark_verifier", "plonk" => "universal_plonk_verifier",
        "libra" => "mini_libra_zk_linear_gkr_verifier", _ => "mini_hyrax_zk_linear_gkr_verifier",
    }
}
/// the bytes of a cell; None: no such cell
fn cell(d: &Docs, c: &Value) -> Option<Vec<u8>> {
    let (k, s) = (c.us("k"), c.us("s"));
    let mut b = match c.st("doc") {
        "vk" => d.vk.get(&k).cloned().unwrap_or_default(),
        "proof" => d.proof.get(&(k, s, c.us("bad"))).cloned().unwrap_or_default(),
        "public" => d.public.get(&(k, s)).cloned().unwrap_or_default(),
        _ => vec![],
    };
    match c.st("dmg") {
        "missing" => return None,
        "cut" => { b.pop(); }
        "half" => b.truncate(b.len() / 2),
        "empty" => b.clear(),
        "trail" => b.push(c.us("at") as u8),
        "flip" => if !b.is_empty() { let n = b.len(); b[c.us("at") * 7919 % n] ^= 1 << (c.us("at") % 8); },
        _ => (),
    }
    Some(b)
}
fn main() {
    quiet_panics();
    let a = args();
    if a[1] == "--lib" {
        // the library on the same bytes, in a process of its own
        let b: Vec<Vec<u8>> = (0..3).map(|i| std::fs::read(format!("{}/output.{}", a[3], i)).unwrap()).collect();
        std::process::exit(if guarded(|| lib(&a[2], &b[0], &b[1], &b[2])).ok().flatten().unwrap_or(false) { 0 } else { 1 });
    }
    let mut out = Out::new(&a[2]);
    let mut pool: HashMap<String, Docs> = HashMap::new();
    for (n, q) in read_lines(&a[1]).into_iter().enumerate() {
        let scheme = q.st("scheme").to_string();
        let d = pool.entry(scheme.clone()).or_insert_with(|| docs(&scheme));
        let cells: Vec<Option<Vec<u8>>> = q.arr("cells").iter().map(|c| cell(d, c)).collect();
        let dir = format!("{}/tx{}", a[4], n);
        std::fs::create_dir_all(&dir).unwrap();
        for (i, c) in cells.iter().enumerate() {
            if let Some(b) = c {
                std::fs::write(format!("{}/output.{}", dir, i), b).unwrap();
            }
        }
        let code = std::process::Command::new(format!("{}/{}", a[3], bin(&scheme))).env("CKB_TX", &dir)
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap().code().unwrap_or(-1);
        let l = cells.iter().all(|c| c.is_some()) && std::process::Command::new(std::env::current_exe().unwrap()).args(&["--lib", &scheme, &dir])
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap().success();
        std::fs::remove_dir_all(&dir).unwrap();
        let mut o = q.clone();
        o["code"] = json!(code);
        o["lib"] = json!(l);
        // proofs the prover declined to make
        o["made"] = json!(q.arr("cells").iter().all(|c| c.st("doc") != "proof" || d.proof.contains_key(&(c.us("k"), c.us("s"), c.us("bad")))));
        out.put(&o);
    }
}
