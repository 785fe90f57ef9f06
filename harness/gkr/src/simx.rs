//! Settings and verdicts for the transcripts of LibraSim.tla and HyraxSim.tla.
use super::*;
const Q: u64 = P;
fn pt(g: &impl ark_serialize::CanonicalSerialize) -> u64 { let mut b = vec![]; g.serialize(&mut b).unwrap(); words(&b)[0] }
macro_rules! gens { ($p:expr) => { json!({"g": $p.generators.iter().map(pt).collect::<Vec<_>>(), "h": pt(&$p.h)}) } }
macro_rules! keys { ($v:expr, $q:expr) => {
    $v["sc_1"] = gens!($q.sc_params.gen_1); $v["sc_3"] = gens!($q.sc_params.gen_3); $v["sc_4"] = gens!($q.sc_params.gen_4);
    $v["pc_n"] = gens!($q.pc_params.gen_n); $v["pc_1"] = gens!($q.pc_params.gen_1);
} }
pub fn plain(_: &mut Value, _: &()) {}
pub fn zk(v: &mut Value, q: &LP) { keys!(v, q); }
pub fn hyrax(v: &mut Value, q: &HP) { keys!(v, q); }
fn raws(v: &VV) -> Vec<Vec<u64>> { v.iter().map(|r| r.iter().map(|x| x.raw()).collect()).collect() }
pub fn main<K: Kind>(insts: &[Value], sims: Option<Vec<Value>>, settings: Vec<Value>, out: &mut Out, par: &dyn Fn(&mut Value, &K::P)) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let made = guarded(|| {
            let c = K::circuit(&def);
            let q = K::params(sd + 1, log2(half(def.ni, def.na) * xs.len()) + (n + n / 3) % 3);
            (c, q)
        });
        let (c, q) = match made { Ok(x) => x, _ => { if sims.is_none() { out.put(&json!({"skip": true})) } continue } };
        // any outputs do: the transcript is made for them
        let o: VV = xs.iter().enumerate().map(|(i, _)| (0..def.raw.last().unwrap().len()).map(|j| F::i((7 + 31 * i + 5 * j + n) as i64)).collect()).collect();
        match &sims {
            None => {
                let mut v = json!({"ni": def.ni, "na": def.na, "layers": inst["layers"], "xs": raws(&xs), "x": raws(&xs)[0], "w": raws(&ws)[0], "outs": raws(&o), "out": raws(&o)[0], "zk": K::NAME == "zk"});
                par(&mut v, &q);
                sim::setting(out, Q, sd + 7, v)
            }
            Some(s) => { let h = K::hashes(&q, &c); sim::judge(out, n, &settings[n].ints("coins"), s, &|w| match K::de(&unwords(w)) {
                Some(pf) if words(&K::ser(&pf)) == w => Ok(K::check(&q, &c, &def, &pf, &xs, &ws, &o, h)),
                _ => Err("malformed".into()),
            }) }
        }
    }
}
