//! Histories of the vector commitment, in the exponents.
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use mock::*;
use zkp_asvc::*;
fn one<const P: u64>(q: &Value, id: usize, out: &mut Out) {
    type E<const P: u64> = Eng<P>;
    let f = |v: i64| Fp::<P>::i(v);
    let fs = |v: Vec<i64>| -> Vec<Fp<P>> { v.into_iter().map(f).collect() };
    let pts = |o: &Value| -> Vec<u32> { o.ints("pts").iter().map(|x| *x as u32).collect() };
    let n0 = q.us("n0");
    let dom: GeneralEvaluationDomain<Fp<P>> = GeneralEvaluationDomain::new(n0).unwrap();
    let n = dom.size();
    let om = if n == 1 { Fp::<P>::i(1) } else { dom.element(1) };
    // a trapdoor inside the domain (or zero) is excluded with overwhelming probability in the real field
    let mut got = None;
    for s in 0..40u64 {
        if let Ok(Ok(k)) = guarded(|| key_gen::<E<P>, _>(n0, &mut rng(seed() * 1000 + id as u64 * 50 + s))) {
            let p1 = &k.proving_key.powers_of_g1;
            let bad = p1.len() > 1 && p1[0].raw() != 0 && { let t = p1[1].0 * ark_ff::Field::inverse(&p1[0].0).unwrap(); ark_ff::Field::pow(&t, &[n as u64]) == f(1) || t == f(0) };
            if !bad { got = Some(k); break; }
        }
    }
    let k = match got { Some(k) => k, None => { out.put(&json!({"ev": "key", "res": "err", "inst": id, "p": P, "n0": n0})); return; } };
    let (pk, vk) = (&k.proving_key, &k.verification_key);
    let g1 = |v: &Vec<G<P, 1>>| json!(v.iter().map(|x| x.raw()).collect::<Vec<_>>());
    let g2 = |v: &Vec<G<P, 2>>| json!(v.iter().map(|x| x.raw()).collect::<Vec<_>>());
    let up: (Vec<_>, Vec<_>) = pk.update_keys.iter().map(|u| (u.ai, u.ui)).unzip();
    out.put(&json!({"ev": "key", "res": "ok", "inst": id, "p": P, "n0": n0, "n": n, "om": om.raw(), "pg1": g1(&pk.powers_of_g1), "vg1": g1(&vk.powers_of_g1), "pg2": g2(&vk.powers_of_g2), "vg2": g2(&vk.powers_of_g2),
        "lag": g1(&pk.l_of_g1), "a": g1(&up.0), "u": g1(&up.1), "va": vk.a.raw()}));
    let mut vec: Vec<Fp<P>> = vec![];
    let mut c = Commitment::<E<P>> { commit: G::from_raw(0) };
    let mut held: Vec<(u32, Proof<E<P>>)> = vec![];
    let mut last = Proof::<E<P>> { w: G::from_raw(0) };
    for o in q.arr("ops") {
        let mut e = o.clone();
        e["ev"] = o["op"].clone();
        e["inst"] = json!(id);
        let mut fail = false;
        let res = match o.st("op") {
            "commit" => {
                vec = fs(o.ints("v"));
                held.clear();
                match guarded(|| commit::<E<P>>(pk, vec.clone())) { Ok(Ok(x)) => c = x, _ => fail = true }
                e["c"] = json!(c.commit.raw());
                if fail { "err" } else { "ok" }
            }
            "track" => {
                let i = o.us("i") as u32;
                let w = match guarded(|| prove_pos::<E<P>>(pk, vec.clone(), vec![i])) { Ok(Ok(x)) => x, _ => { fail = true; Proof { w: G::from_raw(0) } } };
                e["w"] = json!(w.w.raw());
                held.retain(|x| x.0 != i);
                held.push((i, w));
                if fail { "err" } else { "ok" }
            }
            "prove" => {
                last = match guarded(|| prove_pos::<E<P>>(pk, vec.clone(), pts(o))) { Ok(Ok(x)) => x, _ => { fail = true; Proof { w: G::from_raw(0) } } };
                e["w"] = json!(last.w.raw());
                if fail { "err" } else { "ok" }
            }
            "upd" => {
                let (i, d) = (o.us("i"), f(o["d"].as_i64().unwrap()));
                if vec.len() <= i { vec.resize(i + 1, f(0)); }
                vec[i] += d;
                let u = &pk.update_keys;
                match guarded(|| update_commit::<E<P>>(&c, d, i as u32, &u[i], om, n)) { Ok(Ok(x)) => c = x, _ => fail = true }
                for h in held.iter_mut() {
                    match guarded(|| update_proof::<E<P>>(&h.1, d, h.0, i as u32, &u[h.0 as usize], &u[i], om, n)) { Ok(Ok(x)) => h.1 = x, _ => fail = true }
                }
                e["c"] = json!(c.commit.raw());
                e["ws"] = json!(held.iter().map(|h| json!({"i": h.0, "w": h.1.w.raw()})).collect::<Vec<_>>());
                if fail { "err" } else { "ok" }
            }
            "agg" => {
                let ps = pts(o);
                let ws = ps.iter().map(|i| held.iter().find(|h| h.0 == *i).unwrap().1.clone()).collect();
                last = match guarded(|| aggregate_proofs::<E<P>>(ps, ws, om)) { Ok(Ok(x)) => x, _ => { fail = true; Proof { w: G::from_raw(0) } } };
                e["w"] = json!(last.w.raw());
                if fail { "err" } else { "ok" }
            }
            "verify" => {
                let c2 = Commitment { commit: c.commit + G::from_raw(o.us("dc") as u64) };
                let w2 = Proof { w: last.w + G::from_raw(o.us("dw") as u64) };
                match guarded(|| verify_pos::<E<P>>(vk, &c2, fs(o.ints("vals")), pts(o), &w2, om)) { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
            }
            _ => {
                let u = &pk.update_keys[o.us("j")];
                let k2 = UpdateKey { ai: u.ai + G::from_raw(o.us("da") as u64), ui: u.ui + G::from_raw(o.us("du") as u64) };
                match guarded(|| verify_upk::<E<P>>(vk, o.us("i") as u32, &k2, om)) { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
            }
        };
        e["res"] = json!(res);
        out.put(&e);
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (id, q) in read_lines(&a[1]).iter().enumerate() {
        match q.us("p") { 97 => one::<97>(q, id, &mut out), 7681 => one::<7681>(q, id, &mut out), 12289 => one::<12289>(q, id, &mut out), p => panic!("{}", p) }
    }
}
