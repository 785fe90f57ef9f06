//! h-setup INST TRACE: parameters made from many seeds, as the discrete logarithms of their elements.
use ark_serialize::*;
use mock::*;
use serde_json::{json, Value};
const P: u64 = 12289;
type E = Eng<P>;

fn g1(v: &[G<P, 1>]) -> Vec<u64> { v.iter().map(|x| x.raw()).collect() }
fn g2(v: &[G<P, 2>]) -> Vec<u64> { v.iter().map(|x| x.raw()).collect() }
macro_rules! key { ($k:expr) => {{ let mut v = g1(&$k.generators); v.push($k.h.raw()); v }} }
/// the commitment keys of one set of parameters, by name
fn keys(kind: &str, q: &Value, seed: u64) -> Option<Vec<(&'static str, Vec<u64>)>> {
    let r = &mut rng(seed);
    let circ = || r1cs::Circ::from_json(&q["circ"]);
    Some(match kind {
        "nizk" => {
            let p = zkp_spartan::nizk::generate_random_parameters::<E, _, _>(circ().with(None, None), r).ok()?;
            let p = &p.params.r1cs_satisfied_params;
            vec![("witness", key!(p.pc_params.gen_n)), ("value", key!(p.pc_params.gen_1)), ("round1", key!(p.sc_params.gen_1)), ("round3", key!(p.sc_params.gen_3)), ("round4", key!(p.sc_params.gen_4))]
        }
        "snark" => {
            let p = zkp_spartan::snark::generate_random_parameters::<E, _, _>(circ().with(None, None), r).ok()?;
            let (p, e) = (&p.params.r1cs_satisfied_params, &p.params.r1cs_eval_params);
            vec![("witness", key!(p.pc_params.gen_n)), ("value", key!(p.pc_params.gen_1)), ("round1", key!(p.sc_params.gen_1)), ("round3", key!(p.sc_params.gen_3)), ("round4", key!(p.sc_params.gen_4)),
                ("ops", key!(e.ops_params.gen_n)), ("ops1", key!(e.ops_params.gen_1)), ("mem", key!(e.mem_params.gen_n)), ("mem1", key!(e.mem_params.gen_1)), ("derefs", key!(e.derefs_params.gen_n)), ("derefs1", key!(e.derefs_params.gen_1))]
        }
        "libra" => {
            let p = zkp_libra::params::Parameters::<E>::new(r, q.us("size"));
            vec![("witness", key!(p.pc_params.gen_n)), ("value", key!(p.pc_params.gen_1)), ("round1", key!(p.sc_params.gen_1)), ("round3", key!(p.sc_params.gen_3)), ("round4", key!(p.sc_params.gen_4))]
        }
        "hyrax" => {
            let p = zkp_hyrax::params::Parameters::<E>::new(r, q.us("size"));
            vec![("witness", key!(p.pc_params.gen_n)), ("value", key!(p.pc_params.gen_1)), ("round1", key!(p.sc_params.gen_1)), ("round3", key!(p.sc_params.gen_3)), ("round4", key!(p.sc_params.gen_4))]
        }
        "bulletproofs" => {
            let c = circ();
            let (x, w) = (vec![1i64; c.ni], vec![1i64; c.na]);
            let (g, _, _) = zkp_bulletproofs::create_random_proof::<E, _, _>(c.with(Some(&x), Some(&w)), r).ok()?;
            let mut b = vec![];
            g.serialize(&mut b).ok()?;
            let mut b = &b[..];
            let mut v = vec![];
            for _ in 0..2 { v.extend(g1(&Vec::<G<P, 1>>::deserialize(&mut b).ok()?)); }
            for _ in 0..3 { v.push(G::<P, 1>::deserialize(&mut b).ok()?.raw()); }
            vec![("vectors", v)]
        }
        "marlin" => {
            let u = zkp_marlin::universal_setup::<E, _>(q.us("size"), r).ok()?;
            // one commitment of a polynomial and its blinding polynomial
            vec![("powers", g1(&u.powers_of_g).into_iter().take(20).chain(g1(&u.powers_of_gamma_g).into_iter().take(20)).collect())]
        }
        "asvc" => {
            let k = zkp_asvc::key_gen::<E, _>(q.us("size"), r).ok()?;
            vec![("positions", g1(&k.proving_key.l_of_g1))]
        }
        "groth16" => {
            let p = zkp_groth16::generate_random_parameters::<E, _, _>(circ().with(None, None), r).ok()?;
            vec![("inputs", g1(&p.vk.gamma_abc_g1))]
        }
        _ => return None,
    })
}
/// everything a structured setup publishes
fn published(kind: &str, q: &Value, seed: u64) -> Option<Value> {
    let r = &mut rng(seed);
    Some(match kind {
        "groth16" => {
            let c = r1cs::Circ::from_json(&q["circ"]).with(None, None);
            let p = zkp_groth16::generate_random_parameters::<E, _, _>(c, r).ok()?;
            json!({"alpha": p.vk.alpha_g1.raw(), "beta1": p.beta_g1.raw(), "beta2": p.vk.beta_g2.raw(), "gamma": p.vk.gamma_g2.raw(), "delta1": p.delta_g1.raw(), "delta2": p.vk.delta_g2.raw(),
                "abc": g1(&p.vk.gamma_abc_g1), "a": g1(&p.a_query), "b1": g1(&p.b_g1_query), "b2": g2(&p.b_g2_query), "h": g1(&p.h_query), "l": g1(&p.l_query)})
        }
        "marlin" => {
            let u = zkp_marlin::universal_setup::<E, _>(q.us("size"), r).ok()?;
            json!({"g": g1(&u.powers_of_g), "gg": g1(&u.powers_of_gamma_g), "h": u.h.raw(), "bh": u.beta_h.raw()})
        }
        "asvc" => {
            let k = zkp_asvc::key_gen::<E, _>(q.us("size"), r).ok()?;
            json!({"g": g1(&k.proving_key.powers_of_g1), "vg": g1(&k.verification_key.powers_of_g1), "h": g2(&k.verification_key.powers_of_g2)})
        }
        _ => return None,
    })
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (i, q) in read_lines(&a[1]).into_iter().enumerate() {
        let kind = q.st("scheme").to_string();
        let base = (seed() * 1000 + i as u64) * 1000;
        if q.st("what") == "keys" {
            let mut by: Vec<(&'static str, Vec<Vec<u64>>)> = vec![];
            let mut fails = 0;
            let (mut s, mut want) = (0u64, 1usize);
            // one more key than it has elements, and some to spare
            while s < want as u64 {
                s += 1;
                match guarded(|| keys(&kind, &q, base + s)) {
                    Ok(Some(ks)) => {
                        for (j, (n, k)) in ks.into_iter().enumerate() {
                            want = want.max(k.len() + 8 + fails);
                            if by.len() <= j { by.push((n, vec![])); }
                            by[j].1.push(k);
                        }
                    }
                    _ => { fails += 1; want += 1; if fails > 20 { break; } }
                }
            }
            for (n, mut rows) in by {
                let w = rows[0].len();
                rows.truncate(w + 8);
                out.put(&json!({"inst": i, "what": "key", "scheme": kind, "name": n, "rows": rows}));
            }
        } else {
            let rows: Vec<Value> = (1..=q.us("seeds") as u64).filter_map(|s| guarded(|| published(&kind, &q, base + s)).ok().flatten()).collect();
            let mut o = json!({"inst": i, "what": "published", "scheme": kind, "name": "", "rows": rows, "size": q["size"]});
            o["circ"] = q["circ"].clone();
            out.put(&o);
        }
    }
}
