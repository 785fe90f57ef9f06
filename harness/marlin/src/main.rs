use ark_serialize::*;
mod codec;
mod fsx;
mod simx;
use mock::hist::{resplit, Scheme};
use mock::*;
use zkp_marlin::*;

pub struct M<const P: u64>;
fn e<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
impl<const P: u64> Scheme for M<P> {
    type Pk = IndexProverKey<'static, Eng<P>>;
    type Vk = IndexVerifierKey<Eng<P>>;
    type Proof = Proof<Eng<P>>;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String> {
        let srs = universal_setup::<Eng<P>, _>(128.max(8 * c.cons.iter().map(|k| k[0].len().max(k[1].len()).max(k[2].len()).max(1)).sum::<usize>()).max(4 * (c.na + c.ni)), &mut rng(seed)).map_err(e)?;
        let srs: &'static UniversalParams<Eng<P>> = Box::leak(Box::new(srs));
        index(srs, c.with(None, None)).map_err(e)
    }
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String> {
        create_random_proof(pk, c.with(Some(x), Some(w)), &mut rng(seed)).map_err(e)
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String> {
        let x: Vec<Fp<P>> = x.iter().map(|v| Fp::i(*v)).collect();
        verify_proof(vk, p, &x).map_err(e)
    }
    fn ser(p: &Self::Proof) -> Vec<u8> { let mut b = vec![]; p.serialize(&mut b).unwrap(); b }
    fn rearranged(p: &Self::Proof) -> Vec<Self::Proof> { resplit(&p.commitments).into_iter().map(|c| Proof { commitments: c, ..p.clone() }).collect() }
    fn de(b: &[u8]) -> Option<Self::Proof> { Proof::deserialize(b).ok() }
}

impl<const P: u64> par::Keys for M<P> {
    fn keys(pk: &Self::Pk, vk: &Self::Vk) -> Vec<(&'static str, Vec<u8>)> {
        let mut b = vec![];
        vk.serialize_uncompressed(&mut b).unwrap();
        let mut c = vec![];
        pk.committer_key.serialize_uncompressed(&mut c).unwrap();
        vec![("vk", b), ("ck", c)]
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[3]);
    match a[1].as_str() {
        m @ "complete" | m @ "sound" => hist::run::<M<GOLD>>(&read_lines(&a[2]), &mut out, m, seed()),
        "fs" => fsx::run::<GOLD>(&read_lines(&a[2]), &mut out),
        "codec" => codec::main(&read_lines(&a[2]), &read_lines(&a[4]), &mut out),
        "par" => par::run::<M<GOLD>>(&read_lines(&a[2]), &mut out, seed(), &[0, 3, 33, 90, 0, 9, 250, 1]),
        "sim" => simx::main(&read_lines(&a[2]), None, vec![], &mut out),
        "judge" => simx::main(&read_lines(&a[2]), Some(read_lines(&a[5])), read_lines(&a[6]), &mut out),
        m => panic!("mode {}", m),
    }
}
