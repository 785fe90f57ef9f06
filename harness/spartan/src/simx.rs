//! Settings and verdicts for the transcripts of SpartanSim.tla.
use super::*;
use zkp_spartan::data_structure::*;
const Q: u64 = 12289;
fn gens(m: &MultiCommitmentParameters<Eng<Q>>) -> Value { json!({"g": m.generators.iter().map(|x| x.raw()).collect::<Vec<_>>(), "h": m.h.raw()}) }
fn pair(m: &PolyCommitmentParameters<Eng<Q>>) -> Value { json!({"n": gens(&m.gen_n), "one": gens(&m.gen_1)}) }
fn sat(v: &mut Value, c: &Circ, x: &[i64], p: &R1CSSatisfiedParameters<Eng<Q>>) {
    let t = c.na.max(c.ni + 1).next_power_of_two();
    for (k, name) in ["A", "B", "C"].iter().enumerate() {
        v[name] = json!(c.cons.iter().enumerate().flat_map(|(r, con)| con[k].iter().map(move |(kind, i, co)| json!([r, if *kind == 0 { t + i } else { *i }, co])).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    v["x"] = json!(x); v["ni"] = json!(c.ni); v["na"] = json!(c.na); v["nc"] = json!(c.cons.len());
    v["sc_1"] = gens(&p.sc_params.gen_1); v["sc_3"] = gens(&p.sc_params.gen_3); v["sc_4"] = gens(&p.sc_params.gen_4);
    v["pc_n"] = gens(&p.pc_params.gen_n); v["pc_1"] = gens(&p.pc_params.gen_1);
}
pub fn main(insts: &[Value], sims: Option<Vec<Value>>, settings: Vec<Value>, out: &mut Out, kind: &str) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let (c, x) = (Circ::from_json(inst), inst.ints("x"));
        macro_rules! go { ($s:ident, $body:expr) => {{
            let (pk, vk) = match guarded(|| $s::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k, _ => { if sims.is_none() { out.put(&json!({"skip": true})) } continue } };
            match &sims {
                None => { let _ = &pk; let mut v = json!({"snark": kind != "nizk"}); $body(&mut v, &vk); sim::setting(out, Q, sd + 7, v) }
                Some(s) => sim::judge(out, n, &settings[n].ints("coins"), s, &|w| $s::<Q>::verify(&vk, &$s::<Q>::de(&unwords(w)).ok_or("bytes")?, &x)),
            }
        }} }
        if kind == "nizk" { go!(Nizk, |v: &mut Value, vk: &Pk<nizk::VerifyKey<Eng<Q>>, Q>| sat(v, &c, &x, &vk.k.params.r1cs_satisfied_params)) }
        else { go!(Snark, |v: &mut Value, vk: &Pk<snark::VerifyKey<Eng<Q>>, Q>| {
            sat(v, &c, &x, &vk.k.params.r1cs_satisfied_params);
            let (e, q) = (&vk.k.encode_comm, &vk.k.params.r1cs_eval_params);
            v["n"] = json!(e.n); v["m"] = json!(e.m);
            v["ops_commit"] = json!(e.ops_commit.iter().map(|x| x.raw()).collect::<Vec<_>>());
            v["mem_commit"] = json!(e.mem_commit.iter().map(|x| x.raw()).collect::<Vec<_>>());
            v["ops"] = pair(&q.ops_params); v["mem"] = pair(&q.mem_params); v["derefs"] = pair(&q.derefs_params);
            let s = (e.n as f64).log2() as u32 + 3; v["nd"] = json!(1usize << (s / 2));
        }) }
    }
}
