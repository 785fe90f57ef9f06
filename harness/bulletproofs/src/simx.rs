//! Settings and verdicts for the transcripts of BulletproofsSim.tla.
use super::*;
const Q: u64 = 12289;
pub fn main(insts: &[Value], sims: Option<Vec<Value>>, settings: Vec<Value>, out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let (c, x) = (Circ::from_json(inst), inst.ints("x"));
        let vk = match guarded(|| Bp::<Q>::setup(&c, sd)) { Ok(Ok(k)) => k.1, _ => { if sims.is_none() { out.put(&json!({"skip": true})) } continue } };
        match &sims {
            None => {
                let w: Vec<u64> = (0..vk.gens.len() / 8).map(|i| fsx::word(&vk.gens, i) as u64).collect();
                let big = w[0] as usize;
                let t = 2 + 2 * big;
                sim::setting(out, Q, sd + 7, json!({
                    "x": x, "na": c.na, "cons": c.cons.iter().map(|k| k.to_vec()).collect::<Vec<_>>(),
                    "g_vec": w[1..big + 1], "h_vec": w[big + 2..t], "g": w[t], "h": w[t + 1], "u": w[t + 2],
                }))
            }
            Some(s) => sim::judge(out, n, &settings[n].ints("coins"), s, &|w| Bp::<Q>::verify(&vk, &unwords(w), &x)),
        }
    }
}
