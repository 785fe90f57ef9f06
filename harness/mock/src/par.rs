//! The outputs of a scheme for one instance, as digests: compared between builds and thread counts (P28).
use crate::codec::dig;
use crate::hist::Scheme;
use crate::io::*;
use crate::r1cs::*;
use serde_json::{json, Value};

pub trait Keys: Scheme { fn keys(pk: &Self::Pk, vk: &Self::Vk) -> Vec<(&'static str, Vec<u8>)>; }

/// the same statement made larger: constraints repeated, terms adding up to zero, more variables
pub fn expand(c: &Circ, w: &[i64], rep: usize) -> (Circ, Vec<i64>) {
    let (mut d, mut v) = (c.clone(), w.to_vec());
    for r in 0..rep {
        let x = d.na;
        d.na += 1;
        d.order.push(1);
        v.push((r as i64 * 7919) % 1009 - 500);
        d.cons.push([vec![(1, x, 1)], vec![(0, 0, 1)], vec![(1, x, 1)]]);
        if let Some(k) = c.cons.get(r % c.cons.len().max(1)) {
            let mut k = k.clone();
            let s = r % 3;
            for j in 0..(if r % 5 == 0 { rep } else { 2 }) { k[s].push((1, j % d.na, 3 + j as i64)); k[s].push((1, j % d.na, -3 - j as i64)); }
            d.cons.push(k);
        }
    }
    (d, v)
}
pub fn put(out: &mut Out, inst: usize, what: &str, b: &[u8]) { out.put(&json!({"inst": inst, "what": what, "dig": dig(b), "len": b.len()})); }
pub fn said<T>(r: &Result<Result<T, String>, String>) -> String { match r { Ok(Ok(_)) => "ok".into(), Ok(Err(_)) => "error".into(), Err(_) => "panic".into() } }
pub fn coins() -> Vec<u8> { crate::log::stop().iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
pub fn run<S: Keys>(insts: &[Value], out: &mut Out, seed: u64, reps: &[usize]) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed.wrapping_mul(1_000_003).wrapping_add(n as u64 * 1009);
        let (c, w) = expand(&Circ::from_json(inst), &inst.ints("w"), reps[n % reps.len()]);
        let x = inst.ints("x");
        crate::log::start();
        let k = guarded(|| S::setup(&c, sd + 1));
        put(out, n, "setup.coins", &coins());
        put(out, n, "setup", said(&k).as_bytes());
        let (pk, vk) = match k { Ok(Ok(k)) => k, _ => continue };
        for (what, b) in S::keys(&pk, &vk) { put(out, n, what, &b); }
        crate::log::start();
        let p = guarded(|| S::prove(&pk, &c, &x, &w, sd + 2));
        put(out, n, "prove.coins", &coins());
        put(out, n, "prove", said(&p).as_bytes());
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let b = S::ser(&p);
        put(out, n, "proof", &b);
        crate::log::start();
        let r = guarded(|| S::verify(&vk, &p, &x));
        put(out, n, "verify.coins", &coins());
        put(out, n, "verify", format!("{:?}", r.map(|r| r.ok())).as_bytes());
        // wrong statement, wrong witness, altered proof
        let mut v = String::new();
        for i in 0..x.len() { let mut y = x.clone(); y[i] += 1; v += &format!("{:?},", guarded(|| S::verify(&vk, &p, &y)).ok().and_then(|r| r.ok())); }
        let ws = words(&b);
        for i in (0..ws.len()).step_by(1 + ws.len() / 24) {
            let mut q = ws.clone();
            q[i] = q[i].wrapping_add(1);
            v += &format!("{:?},", guarded(|| S::de(&unwords(&q)).map(|q| S::verify(&vk, &q, &x).ok())).ok());
        }
        put(out, n, "altered", v.as_bytes());
        if let Some(l) = w.len().checked_sub(1) {
            let mut u = w.clone();
            u[l / 2] += 1;
            let p = guarded(|| S::prove(&pk, &c, &x, &u, sd + 3));
            put(out, n, "prove.bad", said(&p).as_bytes());
            if let Ok(Ok(p)) = p {
                put(out, n, "proof.bad", &S::ser(&p));
                put(out, n, "verify.bad", format!("{:?}", guarded(|| S::verify(&vk, &p, &x)).map(|r| r.ok())).as_bytes());
            }
        }
    }
}
