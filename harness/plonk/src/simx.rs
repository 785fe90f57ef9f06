//! Settings and verdicts for the transcripts of PlonkSim.tla.
use super::*;
use ark_ff::{FftField, FftParameters};
use ark_poly_commit::{kzg10, marlin_pc, BatchLCProof};
fn com(w: u64) -> marlin_pc::Commitment<Eng<P>> { marlin_pc::Commitment { comm: kzg10::Commitment(G::from_raw(w)), shifted_comm: None } }
fn proof(w: &[u64]) -> Proof<F, PC> {
    let open = |i: usize| kzg10::Proof { w: G::from_raw(w[i]), random_v: None };
    Proof {
        commitments: vec![w[..4].iter().map(|x| com(*x)).collect(), vec![com(w[4])], w[5..9].iter().map(|x| com(*x)).collect()],
        evaluations: w[9..20].iter().map(|x| F::i(*x as i64)).collect(),
        pc_proof: BatchLCProof { proof: vec![open(20), open(21)], evals: None },
    }
}
pub fn main(insts: &[Value], sims: Option<Vec<Value>>, settings: Vec<Value>, out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let r = guarded(|| {
            let cs = composer(inst.arr("calls"), &inst.ints("vals"), &[]);
            let s = cs.compose(&ks()).map_err(|e| format!("{:?}", e))?;
            let vk = keygen(&cs, sd)?.1;
            Ok::<_, String>((cs.public_inputs().to_vec(), s, vk))
        });
        let (pi, s, vk) = match r { Ok(Ok(k)) => k, _ => { if sims.is_none() { out.put(&json!({"skip": true})) } continue } };
        match &sims {
            None => {
                let k = &vk.rk.vk;
                let raw = |f: &Vec<F>| f.iter().map(|x| x.raw()).collect::<Vec<_>>();
                sim::setting(out, P, sd + 7, json!({
                    "pi": raw(&pi), "ks": ks().iter().map(|x| x.raw()).collect::<Vec<_>>(),
                    "polys": [("q_0", raw(&s.q_0)), ("q_1", raw(&s.q_1)), ("q_2", raw(&s.q_2)), ("q_3", raw(&s.q_3)), ("q_m", raw(&s.q_m)), ("q_c", raw(&s.q_c)), ("q_arith", raw(&s.q_arith)),
                        ("sigma_0", raw(&s.sigma_0)), ("sigma_1", raw(&s.sigma_1)), ("sigma_2", raw(&s.sigma_2)), ("sigma_3", raw(&s.sigma_3))],
                    "g": k.g.raw(), "h": k.h.raw(), "beta_h": k.beta_h.raw(),
                    "root": F::two_adic_root_of_unity().raw(), "adicity": <F as FftField>::FftParams::TWO_ADICITY,
                }))
            }
            Some(s) => sim::judge(out, n, &settings[n].ints("coins"), s, &|w| PL::verify(&vk, &pi, proof(w)).map_err(|e| format!("{:?}", e))),
        }
    }
}
