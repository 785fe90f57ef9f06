//! Settings and verdicts for the transcripts of MarlinSim.tla.
use super::*;
use zkp_marlin::pc::{Comm, Commitment, Proof as Opening};
use ark_ff::{FftField, FftParameters};
const Q: u64 = 12289;
fn g(w: u64) -> Comm<Eng<Q>> { Comm(G::from_raw(w)) }
fn proof(w: &[u64]) -> Proof<Eng<Q>> {
    let plain = |i: usize| Commitment { comm: g(w[i]), shifted_comm: None };
    let bounded = |i: usize| Commitment { comm: g(w[i]), shifted_comm: Some(g(w[i + 1])) };
    let open = |i: usize| Opening { w: G::from_raw(w[i]), rand_v: Some(Fp::i(w[i + 1] as i64)) };
    Proof {
        commitments: vec![(0..4).map(plain).collect(), vec![plain(4), bounded(5), plain(7)], vec![bounded(8), plain(10)]],
        evaluations: w[11..32].iter().map(|x| Fp::i(*x as i64)).collect(),
        opening_proofs: vec![open(32), open(34)],
    }
}
pub fn main(insts: &[Value], sims: Option<Vec<Value>>, settings: Vec<Value>, out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let (c, x) = (Circ::from_json(inst), inst.ints("x"));
        let vk = match guarded(|| M::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k.1, _ => { if sims.is_none() { out.put(&json!({"skip": true})) } continue } };
        match &sims {
            None => {
                let k = &vk.verifier_key;
                sim::setting(out, Q, sd + 7, json!({
                    "x": x, "constraints": vk.index_info.num_constraints, "nonzeros": vk.index_info.num_non_zeros, "degree": k.supported_degree,
                    "index": vk.index_comms.iter().map(|c| c.comm.0.raw()).collect::<Vec<_>>(),
                    "g": k.g.raw(), "gamma_g": k.gamma_g.raw(), "h": k.h.raw(), "beta_h": k.beta_h.raw(),
                    "root": Fp::<Q>::two_adic_root_of_unity().raw(), "adicity": <Fp<Q> as FftField>::FftParams::TWO_ADICITY,
                }))
            }
            Some(s) => sim::judge(out, n, &settings[n].ints("coins"), s, &|w| M::<Q>::verify(&vk, &proof(w), &x)),
        }
    }
}
