//! Replays proof-system histories generated from the specification on a real scheme.
//! events: setup / prove / verify / tamper, with the observed outcome.
use crate::io::*;
use crate::r1cs::*;
use crate::rng::rng;
use rand::Rng;
use serde_json::{json, Value};

pub trait Scheme {
    type Pk;
    type Vk;
    type Proof: Clone;
    fn setup(c: &Circ, seed: u64) -> Result<(Self::Pk, Self::Vk), String>;
    fn prove(pk: &Self::Pk, c: &Circ, x: &[i64], w: &[i64], seed: u64) -> Result<Self::Proof, String>;
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[i64]) -> Result<bool, String>;
    fn ser(p: &Self::Proof) -> Vec<u8>;
    fn de(b: &[u8]) -> Option<Self::Proof>;
    /// proofs per instance, caps for slow schemes
    fn cap_bad() -> usize { 6 }
    /// structural alterations: the same elements in another arrangement
    fn rearranged(_p: &Self::Proof) -> Vec<Self::Proof> { vec![] }
    /// proofs made with the prover's coins at the edges of their range
    fn edges(_pk: &Self::Pk, _c: &Circ, _x: &[i64], _w: &[i64]) -> Vec<Box<dyn Fn() -> Result<Self::Proof, String>>> { vec![] }
    /// trusted setup: keys of different circuits never share their secret randomness
    fn trusted() -> bool { true }
}
fn verdict(r: Result<Result<bool, String>, String>) -> &'static str {
    match r { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
}
fn st<T>(r: &Result<Result<T, String>, String>) -> (&'static str, String) {
    match r { Ok(Ok(_)) => ("ok", String::new()), Ok(Err(e)) => ("error", e.clone()), Err(e) => ("panic", e.clone()) }
}
fn flat<T>(r: Result<Result<T, String>, String>) -> Option<T> { match r { Ok(Ok(v)) => Some(v), _ => None } }

/// all ways of moving one list boundary by one
pub fn resplit<T: Clone>(c: &[Vec<T>]) -> Vec<Vec<Vec<T>>> {
    let mut r = vec![];
    for i in 1..c.len() {
        let mut d = c.to_vec();
        if let Some(t) = d[i - 1].pop() { d[i].insert(0, t); r.push(d); }
        let mut d = c.to_vec();
        if !d[i].is_empty() { let t = d[i].remove(0); d[i - 1].push(t); r.push(d); }
    }
    r
}

/// mode: "complete" (honest histories only) or "sound" (everything)
pub fn run<S: Scheme>(insts: &[Value], out: &mut Out, mode: &str, seed: u64) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed.wrapping_mul(1_000_003).wrapping_add(n as u64 * 1009);
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        out.put(&json!({"ev": "circuit", "inst": n, "c": 1, "cons": inst["cons"]}));
        let k1 = guarded(|| S::setup(&c, sd + 1));
        let (s, d) = st(&k1);
        out.put(&json!({"ev": "setup", "inst": n, "k": 1, "c": 1, "res": s, "msg": d}));
        let (pk, vk) = match flat(k1) { Some(k) => k, None => continue };
        let mut proofs: Vec<(usize, S::Proof, Vec<i64>)> = vec![];
        let mut pid = 0;
        let mut prove = |pk: &S::Pk, k: usize, x: &[i64], w: &[i64], out: &mut Out, proofs: &mut Vec<(usize, S::Proof, Vec<i64>)>| {
            pid += 1;
            let p = guarded(|| S::prove(pk, &c, x, w, sd + 100 + pid as u64));
            let (s, d) = st(&p);
            out.put(&json!({"ev": "prove", "inst": n, "k": k, "p": pid, "x": x, "w": w, "res": s, "msg": d}));
            if let Some(p) = flat(p) { proofs.push((pid, p, x.to_vec())); }
        };
        let verify = |vk: &S::Vk, k: usize, p: &(usize, S::Proof, Vec<i64>), x: &[i64], out: &mut Out| {
            let r = guarded(|| S::verify(vk, &p.1, x));
            let msg = match &r { Ok(Err(e)) => e.clone(), Err(e) => e.clone(), _ => String::new() };
            out.put(&json!({"ev": "verify", "inst": n, "k": k, "p": p.0, "x": x, "res": verdict(r), "msg": msg}));
        };
        prove(&pk, 1, &x, &w, out, &mut proofs);
        for g in inst.arr("good").iter().take(2) { prove(&pk, 1, &g.ints("x"), &g.ints("w"), out, &mut proofs); }
        if mode == "complete" {
            for (i, f) in S::edges(&pk, &c, &x, &w).into_iter().enumerate() {
                let p = guarded(|| f());
                let (s, d) = st(&p);
                out.put(&json!({"ev": "prove", "inst": n, "k": 1, "p": 1000 + i, "x": x, "w": w, "res": s, "msg": d}));
                if let Some(p) = flat(p) { proofs.push((1000 + i, p, x.to_vec())); }
            }
        }
        for p in proofs.clone().iter() { let x = p.2.clone(); verify(&vk, 1, p, &x, out); }
        if mode == "complete" { continue; }
        let honest = proofs.clone();
        // a second key for the same circuit, and a key for an altered circuit
        let k2 = flat(guarded(|| S::setup(&c, sd + 2)));
        let c2 = Circ::from_json(&json!({"ni": inst["ni"], "na": inst["na"], "order": inst["order"], "cons": inst["cons2"]}));
        out.put(&json!({"ev": "circuit", "inst": n, "c": 2, "cons": inst["cons2"]}));
        let k3 = flat(guarded(|| S::setup(&c2, if S::trusted() { sd + 3 } else { sd + 1 })));
        if let (Some((_, vk2)), Some(p)) = (&k2, honest.get(0)) {
            out.put(&json!({"ev": "setup", "inst": n, "k": 2, "c": 1, "res": "ok", "msg": ""}));
            verify(vk2, 2, p, &x, out);
        }
        if let (Some((pk3, vk3)), Some(p)) = (&k3, honest.get(0)) {
            out.put(&json!({"ev": "setup", "inst": n, "k": 3, "c": 2, "res": "ok", "msg": ""}));
            verify(vk3, 3, p, &x, out);
            let mut ps = vec![];
            prove(pk3, 3, &x, &w, out, &mut ps); // the prover still runs the other circuit
            for p in ps.iter() { verify(vk3, 3, p, &x, out); }
        }
        // assignments violating the circuit
        let bads: Vec<&Value> = inst.arr("bad").iter().collect();
        for b in bads.iter().take(S::cap_bad()) {
            let mut ps = vec![];
            let (bx, bw) = (b.ints("x"), b.ints("w"));
            prove(&pk, 1, &bx, &bw, out, &mut ps);
            for p in ps.iter() {
                verify(&vk, 1, p, &bx, out);
                if bx != x { verify(&vk, 1, p, &x, out); }
            }
        }
        // other public inputs, wrong lengths
        if let Some(p) = honest.get(0) {
            // (of very many inputs: the first, the last and some in between)
            let step = if x.len() > 40 { 1 + x.len() / 5 } else { 1 };
            for i in (0..x.len()).filter(|i| i % step == 0 || i + 1 == x.len()) {
                for d in [1i64, -1] { let mut y = x.clone(); y[i] += d; verify(&vk, 1, p, &y, out); }
                for j in (0..i).filter(|j| j % step == 0 || j + 1 == i) { if x[i] != x[j] { let mut y = x.clone(); y.swap(i, j); verify(&vk, 1, p, &y, out); } }
            }
            let mut y = x.clone(); y.push(0); verify(&vk, 1, p, &y, out);
            let mut y = x.clone(); y.push(1); verify(&vk, 1, p, &y, out);
            if !x.is_empty() {
                verify(&vk, 1, p, &x[..x.len() - 1].to_vec(), out);
                verify(&vk, 1, p, &[], out);
            }
            // serialized-element alterations
            let b = S::ser(&p.1);
            {
                let mut r = rng(sd + 7);
                // the verifier's coins of the honest run, for replaying it interactively
                crate::log::start();
                let _ = guarded(|| S::verify(&vk, &p.1, &x));
                let coins = crate::log::stop();
                                for (i, q) in S::rearranged(&p.1).into_iter().enumerate() {
                    for frozen in &[false, true] {
                        if *frozen { crate::log::script(Some(coins.clone())) }
                        let res = verdict(guarded(|| S::verify(&vk, &q, &x)));
                        crate::log::script(None);
                        out.put(&json!({"ev": "tamper", "inst": n, "k": 1, "p": p.0, "kind": "rearranged", "pos": i, "res": res, "x": x, "same": false, "frozen": frozen}));
                    }
                }
                let mut put = |kind: &str, pos: usize, nb: Vec<u8>, out: &mut Out| {
                    for frozen in &[false, true] {
                    if *frozen && (coins.is_empty() || kind == "splice" || kind == "flip") { continue; }
                    if *frozen { crate::log::script(Some(coins.clone())) }
                    let mut same = nb == b;
                    let res = match guarded(|| S::de(&nb)) {
                        Ok(Some(q)) => {
                            // an encoding of the very same proof is not an alteration
                            same = same || guarded(|| S::ser(&q)).map(|c| c == b).unwrap_or(false);
                            verdict(guarded(|| S::verify(&vk, &q, &x)))
                        }
                        _ => "malformed",
                    };
                    crate::log::script(None);
                    out.put(&json!({"ev": "tamper", "inst": n, "k": 1, "p": p.0, "kind": kind, "pos": pos, "res": res, "x": x,
                        "same": same, "frozen": frozen}));
                    }
                };
                if b.len() % 8 == 0 {
                    let ws = words(&b);
                    let every = if x.len() > 40 { 1 + ws.len() / 60 } else { 1 };
                    let pick = |i: &usize| i % every == 0 || i + 1 == ws.len();
                    for i in (0..ws.len()).filter(pick) {
                        let mut q = ws.clone(); q[i] = q[i].wrapping_add(1); put("inc", i, unwords(&q), out);
                        let mut q = ws.clone(); q[i] = r.gen::<u64>() >> 1; put("rand", i, unwords(&q), out);
                        let mut q = ws.clone(); q[i] = 0; put("zero", i, unwords(&q), out);
                    }
                    if let Some(h) = honest.get(1) {
                        // splice elements of another honest proof
                        let ws2 = words(&S::ser(&h.1));
                        if ws2.len() == ws.len() {
                            for i in (0..ws.len()).filter(pick) { let mut q = ws.clone(); q[i] = ws2[i]; put("splice", i, unwords(&q), out); }
                        }
                    }
                } else {
                    let step = 1 + b.len() / 400;
                    let mut i = r.gen::<usize>() % step;
                    while i < b.len() {
                        let mut q = b.clone(); q[i] = q[i].wrapping_add(1); put("inc", i, q, out);
                        let mut q = b.clone(); q[i] ^= 1 << (r.gen::<u8>() & 7); put("flip", i, q, out);
                        i += step;
                    }
                }
            }
        }
    }
}
