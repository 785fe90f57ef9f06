//! Replays PLONK circuits generated by PlonkGen on zkp_plonk.
mod fsx;
mod codec;
mod simx;
use ark_ff::{Field, PrimeField, One};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_poly_commit::marlin_pc::MarlinKZG10;
use ark_serialize::*;
use blake2::Blake2s;
use mock::*;
use rand::Rng;
use std::collections::HashMap;
use zkp_plonk::{Composer, Plonk, Proof, ProverKey, VerifierKey};

/// the small build (h-plonk-small) works in a field TLC can compute in
const P: u64 = if env!("CARGO_BIN_NAME").len() > 7 { 12289 } else { GOLD };
type F = Fp<P>;
type PC = MarlinKZG10<Eng<P>, DensePolynomial<F>>;
type PL = Plonk<F, Blake2s, PC>;
fn ks() -> [F; 4] { [F::i(1), F::i(7), F::i(13), F::i(17)] }
fn cen(f: F) -> i64 { let v = f.into_repr().0[0]; if v > P / 2 { -((P - v).min(2_000_000_000) as i64) } else { v.min(2_000_000_000) as i64 } }

fn composer(calls: &[Value], vals: &[i64], ov: &[Value]) -> Composer<F> {
    let mut cs = Composer::<F>::new();
    // variable 0 of the specification is the null variable; nothing in the API returns it,
    // so uses of it are given a variable of value 0 of their own only when a call needs one
    let mut vars = vec![];
    for (i, v) in vals.iter().enumerate() { if i > 0 { vars.push(cs.alloc_and_assign(F::i(*v))); } }
    for (g, c) in calls.iter().enumerate() {
        let f = |k: &str| F::i(c[k].as_i64().unwrap());
        let mut var = |k: &str, slot: i64, cs: &mut Composer<F>| {
            for o in ov { if o[0].as_u64().unwrap() as usize == g + 1 && o[1].as_i64().unwrap() == slot {
                return cs.alloc_and_assign(F::i(o[2].as_i64().unwrap()));
            } }
            vars[c[k].as_u64().unwrap() as usize - 1]
        };
        match c.st("k") {
            "add" | "mul" => {
                let l = var("l", 1, &mut cs); let r = var("r", 2, &mut cs); let o = var("o", 3, &mut cs);
                let a = if c["a"].as_i64().unwrap() < 0 { None } else { Some((var("a", 0, &mut cs), f("qa"))) };
                if c.st("k") == "add" { cs.create_add_gate((l, f("ql")), (r, f("qr")), o, a, f("qc"), f("pi")) }
                else { cs.create_mul_gate(l, r, o, a, f("qm"), f("qc"), f("pi")) }
            }
            "const" => { let l = var("l", 1, &mut cs); cs.constrain_to_constant(l, f("qc"), f("pi")) }
            "eq" => { let l = var("l", 1, &mut cs); let r = var("r", 2, &mut cs); cs.assert_equal(l, r) }
            k => panic!("call {}", k),
        }
    }
    cs
}
fn res<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>) -> (&'static str, String, Option<T>) {
    match r { Ok(Ok(v)) => ("ok", String::new(), Some(v)), Ok(Err(e)) => ("error", format!("{:?}", e), None), Err(e) => ("panic", e, None) }
}
fn verdict<E: std::fmt::Debug>(r: Result<Result<bool, E>, String>) -> &'static str {
    match r { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
}
fn copy(p: &Proof<F, PC>) -> Proof<F, PC> { let mut b = vec![]; p.serialize(&mut b).unwrap(); Proof::deserialize(&b[..]).unwrap() }
fn keygen(cs: &Composer<F>, seed: u64) -> Result<(ProverKey<F, PC>, VerifierKey<F, PC>), String> {
    let srs = PL::setup(cs.size().next_power_of_two().max(2), &mut rng(seed)).map_err(|e| format!("{:?}", e))?;
    PL::keygen(&srs, cs, ks()).map_err(|e| format!("{:?}", e))
}

/// outputs compared between builds (P28); the gate list is repeated to make larger circuits
fn outputs(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let one = inst.arr("calls");
        let calls: Vec<Value> = (0..[1, 2, 9, 30, 1, 200, 4, 1][n % 8]).flat_map(|_| one.iter().cloned()).collect();
        let vals = inst.ints("vals");
        let cs = match guarded(|| composer(&calls, &vals, &[])) { Ok(c) => c, _ => { par::put(out, n, "panic", b""); continue } };
        let comp = guarded(|| { let s = cs.compose(&ks()).unwrap(); let w = cs.synthesize().unwrap();
            format!("{:?}", (s.q_0, s.q_1, s.q_2, s.q_3, s.q_m, s.q_c, s.q_arith, s.sigma_0, s.sigma_1, (s.sigma_2, s.sigma_3, w.w_0, w.w_1, w.w_2, w.w_3))) });
        par::put(out, n, "composed", format!("{:?}", comp.ok()).as_bytes());
        par::put(out, n, "inputs", format!("{:?}", cs.public_inputs()).as_bytes());
        log::start();
        let k = guarded(|| keygen(&cs, sd));
        par::put(out, n, "keygen.coins", &par::coins());
        let (pk, vk) = match k { Ok(Ok(k)) => k, _ => { par::put(out, n, "no keys", b""); continue } };
        let mut b = vec![];
        vk.serialize(&mut b).unwrap();
        par::put(out, n, "vk", &b);
        log::start();
        let p = guarded(|| PL::prove(&pk, &cs, &mut rng(sd + 1)));
        par::put(out, n, "prove.coins", &par::coins());
        let p = match p { Ok(Ok(p)) => p, _ => { par::put(out, n, "no proof", b""); continue } };
        let mut b = vec![];
        p.serialize(&mut b).unwrap();
        par::put(out, n, "proof", &b);
        let pi = cs.public_inputs().to_vec();
        let ver = |x: &[F], p: &Proof<F, PC>| format!("{:?}", guarded(|| PL::verify(&vk, x, copy(p)).ok()).ok());
        let mut v = ver(&pi, &p);
        for i in (0..pi.len()).step_by(1 + pi.len() / 20) { let mut y = pi.clone(); y[i] += F::one(); v += &ver(&y, &p); }
        for i in (0..b.len()).step_by(1 + b.len() / 40) { let mut q = b.clone(); q[i] ^= 1; if let Ok(Ok(q)) = guarded(|| Proof::<F, PC>::deserialize(&q[..])) { v += &ver(&pi, &q); } }
        par::put(out, n, "verify", v.as_bytes());
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mode = a[1].as_str();
    let mut out = Out::new(&a[3]);
    let out = &mut out;
    if mode == "codec" { return codec::main(&read_lines(&a[2]), &read_lines(&a[4]), out); }
    if mode == "par" { return outputs(&read_lines(&a[2]), out); }
    if mode == "sim" { return simx::main(&read_lines(&a[2]), None, vec![], out); }
    if mode == "judge" { return simx::main(&read_lines(&a[2]), Some(read_lines(&a[5])), read_lines(&a[6]), out); }
    if mode == "fs" { return fsx::run(&read_lines(&a[2]), out); }
    for (n, inst) in read_lines(&a[2]).iter().enumerate() {
        let calls = inst.arr("calls").clone();
        let vals = inst.ints("vals");
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        // composition
        let comp = guarded(|| {
            let cs = composer(&calls, &vals, &[]);
            let s = cs.compose(&ks()).map_err(|e| format!("{:?}", e))?;
            let w = cs.synthesize().map_err(|e| format!("{:?}", e))?;
            let dom = GeneralEvaluationDomain::<F>::new(cs.size()).unwrap();
            let sz = s.size();
            let mut pos = HashMap::new();
            for (j, k) in ks().iter().enumerate() {
                let mut x = *k;
                for i in 0..sz { assert!(pos.insert(x.0, j * sz + i).is_none(), "cosets collide"); x *= dom.element(1); }
            }
            let q: Vec<Vec<i64>> = (0..sz).map(|i| vec![s.q_0[i], s.q_1[i], s.q_2[i], s.q_3[i], s.q_m[i], s.q_c[i], s.q_arith[i]].into_iter().map(cen).collect()).collect();
            let ws: Vec<Vec<i64>> = (0..sz).map(|i| vec![w.w_0[i], w.w_1[i], w.w_2[i], w.w_3[i]].into_iter().map(cen).collect()).collect();
            let sig: Vec<usize> = s.sigma_0.iter().chain(&s.sigma_1).chain(&s.sigma_2).chain(&s.sigma_3).map(|x| pos.get(&x.0).cloned().unwrap_or(999999)).collect();
            let pi: Vec<i64> = cs.public_inputs().iter().cloned().map(cen).collect();
            Ok::<_, String>(json!({"n": sz, "q": q, "w": ws, "sig": sig, "pi": pi}))
        });
        let (r, m, v) = res(comp);
        let mut e = json!({"ev": "compose", "inst": n, "calls": calls, "vals": vals, "res": r, "msg": m});
        if let Some(v) = v { for (k, x) in v.as_object().unwrap() { e[k] = x.clone(); } }
        out.put(&e);

        let cs = composer(&calls, &vals, &[]);
        let (r, m, k) = res(guarded(|| keygen(&cs, sd)));
        out.put(&json!({"ev": "setup", "inst": n, "k": 1, "calls": calls, "res": r, "msg": m}));
        let (pk, vk) = match k { Some(k) => k, None => continue };
        let mut pid = 0;
        let mut prove = |pk: &ProverKey<F, PC>, k: usize, calls: &[Value], vals: &[i64], ov: &[Value], out: &mut Out| {
            pid += 1;
            let r = guarded(|| { let cs = composer(calls, vals, ov); let p = PL::prove(pk, &cs, &mut rng(sd + pid)); (p, cs) });
            let (p, cs) = match r { Ok(x) => (Ok(x.0), Some(x.1)), Err(e) => (Err(e), None) };
            let (r, m, p) = res(p);
            out.put(&json!({"ev": "prove", "inst": n, "k": k, "p": pid, "calls": calls, "vals": vals, "ov": ov, "res": r, "msg": m}));
            p.map(|p| (pid, p, cs.unwrap().public_inputs().to_vec()))
        };
        let verify = |vk: &VerifierKey<F, PC>, k: usize, p: &(u64, Proof<F, PC>, Vec<F>), pi: &[F], out: &mut Out| {
            let r = guarded(|| PL::verify(vk, pi, copy(&p.1)));
            out.put(&json!({"ev": "verify", "inst": n, "k": k, "p": p.0, "pi": pi.iter().cloned().map(cen).collect::<Vec<_>>(), "res": verdict(r)}));
        };
        let honest = match prove(&pk, 1, &calls, &vals, &[], out) { Some(p) => p, None => continue };
        let pi = honest.2.clone();
        verify(&vk, 1, &honest, &pi, out);
        if mode == "complete" { continue; }
        // other assignments, other wirings
        for b in inst.arr("bad").iter().chain(inst.arr("ovs")).chain(inst.arr("comp")) {
            if let Some(p) = prove(&pk, 1, &calls, &b.ints("vals"), b.arr("ov"), out) { verify(&vk, 1, &p, &pi, out); }
        }
        // other public inputs
        for i in 0..pi.len() {
            let mut y = pi.clone(); y[i] += F::one(); verify(&vk, 1, &honest, &y, out);
            if i > 0 && y[i - 1] != pi[i] { let mut y = pi.clone(); y.swap(i, i - 1); verify(&vk, 1, &honest, &y, out); }
        }
        let mut y = pi.clone(); y.push(F::i(0)); verify(&vk, 1, &honest, &y, out);
        let mut y = pi.clone(); y.pop(); verify(&vk, 1, &honest, &y, out);
        verify(&vk, 1, &honest, &[], out);
        // another circuit's keys
        let calls2 = inst.arr("calls2");
        if let Ok(Ok((pk2, vk2))) = guarded(|| keygen(&composer(calls2, &vals, &[]), sd)) {
            out.put(&json!({"ev": "setup", "inst": n, "k": 2, "calls": calls2, "res": "ok"}));
            verify(&vk2, 2, &honest, &pi, out);
            if let Some(p) = prove(&pk2, 2, &calls, &vals, &[], out) { verify(&vk2, 2, &p, &pi, out); }
        }
        // altered proofs
        let mut b = vec![];
        honest.1.serialize(&mut b).unwrap();
        let mut r = rng(sd + 7);
        log::start();
        let _ = guarded(|| PL::verify(&vk, &pi, copy(&honest.1)));
        let coins = log::stop();
        for (i, c) in hist::resplit(&honest.1.commitments).into_iter().enumerate() {
            for frozen in &[false, true] {
                let mut q = copy(&honest.1);
                q.commitments = c.clone();
                if *frozen { log::script(Some(coins.clone())) }
                let res = verdict(guarded(|| PL::verify(&vk, &pi, q)));
                log::script(None);
                out.put(&json!({"ev": "tamper", "inst": n, "k": 1, "p": 1, "kind": "rearranged", "pos": i, "res": res, "same": false, "frozen": frozen}));
            }
        }
        for i in 0..b.len() {
            for kind in &["inc", "flip", "frozen", "frozen zero"] {
                let frozen = kind.starts_with("frozen");
                let mut nb = b.clone();
                if *kind == "frozen zero" { if i % 8 != 0 { continue } for j in i..(i + 8).min(b.len()) { nb[j] = 0 } }
                else if *kind != "flip" { nb[i] = nb[i].wrapping_add(1) } else { nb[i] ^= 1 << (r.gen::<u8>() & 7) }
                let mut same = false;
                let res = match guarded(|| Proof::<F, PC>::deserialize(&nb[..])) {
                    Ok(Ok(q)) => {
                        let mut c = vec![];
                        same = q.serialize(&mut c).is_ok() && c == b;
                        if frozen { log::script(Some(coins.clone())) }
                        let v = verdict(guarded(|| PL::verify(&vk, &pi, q)));
                        log::script(None);
                        v
                    }
                    _ => "malformed",
                };
                out.put(&json!({"ev": "tamper", "inst": n, "k": 1, "p": 1, "kind": kind, "pos": i, "res": res, "same": same, "frozen": frozen}));
            }
        }
    }
}
