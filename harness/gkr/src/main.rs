//! Replays layered circuits generated by GKRGen on zkp_libra (plain and zk) and zkp_hyrax.
use ark_poly::univariate::DensePolynomial;
use ark_serialize::*;
mod fsx;
mod codec;
mod simx;
use mock::*;
use rand::Rng;

/// the small build (h-gkr-small) works in a field TLC can compute in
const P: u64 = if env!("CARGO_BIN_NAME").len() > 5 { 12289 } else { GOLD };
type F = Fp<P>;
type E = Eng<P>;
type VV = Vec<Vec<F>>;
type Raw = Vec<Vec<(u8, usize, usize)>>;

fn cen(f: F) -> i64 { let v = f.raw(); if v > P / 2 { -((P - v).min(2_000_000_000) as i64) } else { v.min(2_000_000_000) as i64 } }
fn cen2(v: &VV) -> Vec<Vec<i64>> { v.iter().map(|r| r.iter().cloned().map(cen).collect()).collect() }
fn half(ni: usize, na: usize) -> usize { ni.max(na).max(1).next_power_of_two() }
fn log2(n: usize) -> usize { n.trailing_zeros() as usize }

#[derive(Clone)]
struct Def { ni: usize, na: usize, raw: Raw }
/// the two crates share the shape of their circuits and parameters, not the types
trait Kind {
    const NAME: &'static str;
    type C;
    type P;
    type Proof;
    fn circuit(d: &Def) -> Self::C;
    fn params(seed: u64, num: usize) -> Self::P;
    fn evaluate(c: &Self::C, x: &Vec<F>, w: &Vec<F>) -> Result<VV, String>;
    fn prove(p: &Self::P, c: &Self::C, hc: &Self::C, xs: &VV, ws: &VV, seed: u64) -> (Self::Proof, VV);
    fn verify(p: &Self::P, c: &Self::C, d: &Def, pf: &Self::Proof, xs: &VV, ws: &VV, out: &VV) -> bool { Self::check(p, c, d, pf, xs, ws, out, Self::hashes(p, c)) }
    /// hashes of circuit and parameters
    fn hashes(p: &Self::P, c: &Self::C) -> (F, F);
    fn check(p: &Self::P, c: &Self::C, d: &Def, pf: &Self::Proof, xs: &VV, ws: &VV, out: &VV, h: (F, F)) -> bool;
    fn ser(pf: &Self::Proof) -> Vec<u8>;
    fn de(b: &[u8]) -> Option<Self::Proof>;
    /// positions (in words) the verifier only absorbs
    fn absorbed_only(_pf: &Self::Proof) -> Vec<usize> { vec![] }
}
struct Plain;
struct Zk;
struct Hy;
use zkp_libra::libra_linear_gkr::{LayerProof, LinearGKRProof};
use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
use zkp_libra::sumcheck::SumCheckProof;
type LC = zkp_libra::circuit::Circuit;
type HC = zkp_hyrax::circuit::Circuit;
type LP = zkp_libra::params::Parameters<E>;
type HP = zkp_hyrax::params::Parameters<E>;
impl Kind for Plain {
    const NAME: &'static str = "plain";
    type C = LC; type P = (); type Proof = LinearGKRProof<E>;
    fn circuit(d: &Def) -> LC { LC::new(d.ni, d.na, &d.raw) }
    fn params(_: u64, _: usize) {}
    fn evaluate(c: &LC, x: &Vec<F>, w: &Vec<F>) -> Result<VV, String> { c.evaluate::<E>(x, w).map_err(|e| format!("{:?}", e)) }
    fn prove(_: &(), c: &LC, hc: &LC, xs: &VV, ws: &VV, _: u64) -> (Self::Proof, VV) {
        let (p, o) = LinearGKRProof::<E>::prover(c, &xs[0], &ws[0], hc.circuit_to_hash::<E>()); (p, vec![o])
    }
    fn hashes(_: &(), c: &LC) -> (F, F) { (c.circuit_to_hash::<E>(), F::i(0)) }
    fn check(_: &(), c: &LC, d: &Def, pf: &Self::Proof, xs: &VV, ws: &VV, out: &VV, hash: (F, F)) -> bool {
        let h = half(d.ni, d.na);
        let mut full = ws[0].clone(); full.resize(h, F::i(0)); full.extend(&xs[0]); full.resize((2 * h).max(full.len()), F::i(0));
        pf.verify(c, &out[0], &full, hash.0)
    }
    fn ser(pf: &Self::Proof) -> Vec<u8> {
        let mut b = vec![];
        (pf.proofs.len() as u64).serialize(&mut b).unwrap();
        for l in &pf.proofs { l.proof_phase_one.serialize(&mut b).unwrap(); l.proof_phase_two.serialize(&mut b).unwrap(); }
        b
    }
    fn de(mut b: &[u8]) -> Option<Self::Proof> {
        let n = u64::deserialize(&mut b).ok()?;
        if n > 64 { return None }
        let mut proofs = vec![];
        for _ in 0..n {
            proofs.push(LayerProof { proof_phase_one: SumCheckProof::deserialize(&mut b).ok()?, proof_phase_two: SumCheckProof::deserialize(&mut b).ok()? });
        }
        let _: Option<DensePolynomial<F>> = None;
        Some(LinearGKRProof { proofs })
    }
}
impl Kind for Zk {
    const NAME: &'static str = "zk";
    type C = LC; type P = LP; type Proof = ZKLinearGKRProof<E>;
    fn circuit(d: &Def) -> LC { LC::new(d.ni, d.na, &d.raw) }
    fn params(seed: u64, num: usize) -> LP { LP::new(&mut rng(seed), num) }
    fn evaluate(c: &LC, x: &Vec<F>, w: &Vec<F>) -> Result<VV, String> { c.evaluate::<E>(x, w).map_err(|e| format!("{:?}", e)) }
    fn prove(p: &LP, c: &LC, hc: &LC, xs: &VV, ws: &VV, seed: u64) -> (Self::Proof, VV) {
        let (pf, o) = ZKLinearGKRProof::<E>::prover(p, c, &xs[0], &ws[0], hc.circuit_to_hash::<E>(), p.param_to_hash(), &mut rng(seed)); (pf, vec![o])
    }
    fn hashes(p: &LP, c: &LC) -> (F, F) { (c.circuit_to_hash::<E>(), p.param_to_hash()) }
    fn check(p: &LP, c: &LC, _: &Def, pf: &Self::Proof, xs: &VV, _: &VV, out: &VV, h: (F, F)) -> bool {
        pf.verify(p, c, &out[0], &xs[0], h.0, h.1)
    }
    fn ser(pf: &Self::Proof) -> Vec<u8> { let mut b = vec![]; pf.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { ZKLinearGKRProof::deserialize(b).ok() }
}
impl Kind for Hy {
    const NAME: &'static str = "hyrax";
    type C = HC; type P = HP; type Proof = zkp_hyrax::hyrax_proof::HyraxProof<E>;
    fn circuit(d: &Def) -> HC { HC::new(d.ni, d.na, &d.raw) }
    fn params(seed: u64, num: usize) -> HP { HP::new(&mut rng(seed), num) }
    // recorded lowest layer first
    fn evaluate(c: &HC, x: &Vec<F>, w: &Vec<F>) -> Result<VV, String> { c.evaluate::<E>(x, w).map(|mut v| { v.reverse(); v }).map_err(|e| format!("{:?}", e)) }
    fn prove(p: &HP, c: &HC, hc: &HC, xs: &VV, ws: &VV, seed: u64) -> (Self::Proof, VV) {
        zkp_hyrax::hyrax_proof::HyraxProof::<E>::prover(p, ws, xs, c, hc.circuit_to_hash::<E>(), p.param_to_hash(), xs.len(), &mut rng(seed))
    }
    fn hashes(p: &HP, c: &HC) -> (F, F) { (c.circuit_to_hash::<E>(), p.param_to_hash()) }
    fn check(p: &HP, c: &HC, _: &Def, pf: &Self::Proof, xs: &VV, _: &VV, out: &VV, h: (F, F)) -> bool {
        pf.verify(p, out, xs, c, h.0, h.1)
    }
    fn ser(pf: &Self::Proof) -> Vec<u8> { let mut b = vec![]; pf.serialize(&mut b).unwrap(); b }
    fn de(b: &[u8]) -> Option<Self::Proof> { Self::Proof::deserialize(b).ok() }
    // the commitments to the round evaluations bind the coins and nothing else
    fn absorbed_only(pf: &Self::Proof) -> Vec<usize> {
        let b = Self::ser(pf);
        let mut r = vec![];
        for i in 0..pf.proofs.len() {
            for j in 0..pf.proofs[i].comm_evals.len() {
                let mut q = Self::de(&b).unwrap();
                q.proofs[i].comm_evals[j].0 += F::i(1);
                r.extend(words(&b).iter().zip(words(&Self::ser(&q))).enumerate().filter(|(_, (x, y))| *x != y).map(|(k, _)| k));
            }
        }
        r
    }
}
fn verdict(r: Result<bool, String>) -> &'static str { match r { Ok(true) => "accept", Ok(false) => "reject", Err(_) => "panic" } }
fn raw(v: &Value) -> Raw {
    v.as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(|g| {
        let g: Vec<usize> = g.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(); (g[0] as u8, g[1], g[2])
    }).collect()).collect()
}
fn vecs(v: &Value) -> VV { v.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| F::i(x.as_i64().unwrap())).collect()).collect() }
type Rec<K> = (usize, <K as Kind>::Proof, VV, VV, VV);

fn run<K: Kind>(insts: &[Value], out: &mut Out, mode: &str) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let mut defs = vec![def.clone()];
        out.put(&json!({"ev": "circuit", "inst": n, "c": 1, "ni": def.ni, "na": def.na, "layers": inst["layers"]}));
        if mode != "complete" {
            for (i, a) in inst.arr("alts").iter().enumerate() {
                defs.push(Def { raw: raw(a), ..def.clone() });
                out.put(&json!({"ev": "circuit", "inst": n, "c": i + 2, "ni": def.ni, "na": def.na, "layers": a}));
            }
        }
        let circ: Vec<K::C> = defs.iter().map(K::circuit).collect();
        // generators for exactly the size needed, or more
        let need = log2(half(def.ni, def.na) * xs.len());
        let num = need + (sd as usize / 1009) % 3;
        let pars = [K::params(sd + 1, num), K::params(sd + 2, num)];
        for i in 0..xs.len() {
            let r = guarded(|| K::evaluate(&circ[0], &xs[i], &ws[i]));
            let (st, v) = match &r { Ok(Ok(v)) => ("ok", cen2(v)), Ok(Err(_)) => ("error", vec![]), Err(_) => ("panic", vec![]) };
            out.put(&json!({"ev": "eval", "inst": n, "c": 1, "x": cen2(&vec![xs[i].clone()])[0], "w": cen2(&vec![ws[i].clone()])[0], "res": st, "layers": v}));
        }
        let mut pid = 0;
        let mut prove = |c: usize, hc: usize, out: &mut Out| -> Option<Rec<K>> {
            pid += 1;
            let r = guarded(|| K::prove(&pars[0], &circ[c - 1], &circ[hc - 1], &xs, &ws, sd + 10 + pid as u64));
            let (st, msg, o) = match &r { Ok((_, o)) => ("ok", String::new(), cen2(o)), Err(e) => ("panic", e.clone(), vec![]) };
            out.put(&json!({"ev": "prove", "inst": n, "p": pid, "kind": K::NAME, "c": c, "hc": hc, "x": cen2(&xs), "w": cen2(&ws), "par": 1, "res": st, "out": o, "msg": msg}));
            r.ok().map(|(p, o)| (pid, p, xs.clone(), ws.clone(), o))
        };
        // coins: None = Fiat-Shamir, Some = the verifier's coins of an interactive run
        let verify = |c: usize, par: usize, p: &Rec<K>, x: &VV, w: &VV, o: &VV, coins: Option<&Vec<u64>>, out: &mut Out| {
            if let Some(s) = coins { log::script(Some(s.clone())) }
            let r = guarded(|| K::verify(&pars[par - 1], &circ[c - 1], &defs[c - 1], &p.1, x, w, o));
            log::script(None);
            let msg = match &r { Err(e) => e.clone(), _ => String::new() };
            out.put(&json!({"ev": "verify", "inst": n, "p": p.0, "c": c, "par": par, "x": cen2(x), "w": cen2(w), "out": cen2(o),
                "coins": if coins.is_some() { "frozen" } else { "fs" }, "res": verdict(r), "msg": msg}));
        };
        let honest = match prove(1, 1, out) { Some(p) => p, None => continue };
        log::start();
        verify(1, 1, &honest, &xs, &ws, &honest.4, None, out);
        let coins = log::stop();
        if mode == "complete" { continue; }
        for c in [None, Some(&coins)].iter().cloned() {
            // altered outputs, inputs, witnesses (the plain verifier sees them)
            for (what, v) in [("out", &honest.4), ("x", &xs), ("w", &ws)].iter() {
                if *what == "w" && K::NAME != "plain" { continue; }
                let mut put = |m: VV, out: &mut Out| {
                    if m == **v { return; }
                    match *what {
                        "out" => verify(1, 1, &honest, &xs, &ws, &m, c, out),
                        "x" => verify(1, 1, &honest, &m, &ws, &honest.4, c, out),
                        _ => verify(1, 1, &honest, &xs, &m, &honest.4, c, out),
                    }
                };
                for i in 0..v.len() {
                    for j in 0..v[i].len() {
                        let mut m = (*v).clone(); m[i][j] += F::i(1); put(m, out);
                        if j > 0 { let mut m = (*v).clone(); m[i].swap(j, j - 1); put(m, out); }
                    }
                    if K::NAME == "hyrax" && i > 0 { let mut m = (*v).clone(); m.swap(i, i - 1); put(m, out); }
                    if *what == "w" { continue; } // the caller lays the values out
                    let mut m = (*v).clone(); m[i].push(F::i(1)); put(m, out);
                    let mut m = (*v).clone(); m[i].pop(); put(m, out);
                }
                if K::NAME != "hyrax" { continue; } // a single copy
                let mut m = (*v).clone(); m.pop(); put(m, out);
                let mut m = (*v).clone(); let l = m[0].clone(); m.push(l); put(m, out);
            }
            for k in 2..=defs.len() { verify(k, 1, &honest, &xs, &ws, &honest.4, c, out); }
            if K::NAME != "plain" { verify(1, 2, &honest, &xs, &ws, &honest.4, c, out); }
        }
        // a prover that runs another circuit while claiming this one
        for k in 2..=defs.len() {
            if let Some(p) = prove(k, 1, out) { verify(1, 1, &p, &xs, &ws, &p.4, None, out); }
            if let Some(p) = prove(1, k, out) { verify(k, 1, &p, &xs, &ws, &p.4, None, out); }
        }
        // altered proofs
        let b = K::ser(&honest.1);
        let ws0 = words(&b);
        let dead = K::absorbed_only(&honest.1);
        let mut r = rng(sd + 7);
        let step = if thorough() { 1 } else { 1 + ws0.len() / 150 };
        let mut i = r.gen::<usize>() % step;
        while i < ws0.len() {
            for kind in &["inc", "rand", "zero", "frozen", "frozen zero"] {
                let mut q = ws0.clone();
                match *kind { "zero" | "frozen zero" => q[i] = 0, "rand" => q[i] = r.gen::<u64>() >> 1, _ => q[i] = q[i].wrapping_add(1) };
                let frozen = kind.starts_with("frozen");
                if frozen && dead.contains(&i) { continue; }
                let nb = unwords(&q);
                let mut same = nb == b;
                let res = match guarded(|| K::de(&nb)) {
                    Ok(Some(pf)) => {
                        same = same || guarded(|| K::ser(&pf)).map(|c| c == b).unwrap_or(false);
                        if frozen { log::script(Some(coins.clone())) }
                        let v = verdict(guarded(|| K::verify(&pars[0], &circ[0], &defs[0], &pf, &xs, &ws, &honest.4)));
                        log::script(None);
                        v
                    }
                    _ => "malformed",
                };
                out.put(&json!({"ev": "tamper", "inst": n, "p": 1, "kind": kind, "pos": i, "res": res, "same": same}));
            }
            i += step;
        }
    }
}
/// outputs compared between builds (P28)
fn outputs<K: Kind>(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let c = match guarded(|| K::circuit(&def)) { Ok(c) => c, _ => { par::put(out, n, "panic", b""); continue } };
        par::put(out, n, "values", format!("{:?}", guarded(|| K::evaluate(&c, &xs[0], &ws[0]).ok().map(|v| cen2(&v)))).as_bytes());
        let q = K::params(sd + 1, log2(half(def.ni, def.na) * xs.len()));
        log::start();
        let r = guarded(|| K::prove(&q, &c, &c, &xs, &ws, sd + 2));
        par::put(out, n, "prove.coins", &par::coins());
        let (p, o) = match r { Ok(p) => p, _ => { par::put(out, n, "panic", b""); continue } };
        par::put(out, n, "outputs", format!("{:?}", cen2(&o)).as_bytes());
        par::put(out, n, "proof", &K::ser(&p));
        let ver = |p: &K::Proof, o: &VV| format!("{:?}", guarded(|| K::verify(&q, &c, &def, p, &xs, &ws, o)).ok());
        let mut v = ver(&p, &o);
        for i in 0..o.len() { for j in 0..o[i].len() { let mut m = o.clone(); m[i][j] += F::i(1); v += &ver(&p, &m); } }
        par::put(out, n, "verify", v.as_bytes());
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[3]);
    if a[1] == "codec" { return codec::main(&read_lines(&a[2]), &read_lines(&a[4]), &mut out, &a[5]); }
    if a[1] == "fs" { return fsx::main(&read_lines(&a[2]), &mut out, &a[4]); }
    let insts = read_lines(&a[2]);
    if a[1] == "blind" { return if a[4] == "zk" { fsx::blinded::<Zk>(&insts, &mut out, fsx::zk, |_| vec![], &|q, c, x, w, r| ZKLinearGKRProof::<E>::prover(q, c, &x[0], &w[0], F::i(5), F::i(7), r).0) }
        else { fsx::blinded::<Hy>(&insts, &mut out, fsx::hy, fsx::claims, &|q, c, x, w, r| zkp_hyrax::hyrax_proof::HyraxProof::<E>::prover(q, w, x, c, F::i(5), F::i(7), x.len(), r).0) }; }
    if a[1] == "sim" || a[1] == "judge" {
        let (s, st) = if a[1] == "judge" { (Some(read_lines(&a[5])), read_lines(&a[6])) } else { (None, vec![]) };
        return match a[4].as_str() {
            "plain" => simx::main::<Plain>(&insts, s, st, &mut out, &simx::plain),
            "zk" => simx::main::<Zk>(&insts, s, st, &mut out, &simx::zk),
            _ => simx::main::<Hy>(&insts, s, st, &mut out, &simx::hyrax),
        };
    }
    if a[1] == "par" { return match a[4].as_str() { "plain" => outputs::<Plain>(&insts, &mut out), "zk" => outputs::<Zk>(&insts, &mut out), _ => outputs::<Hy>(&insts, &mut out) }; }
    match a[4].as_str() {
        "plain" => run::<Plain>(&insts, &mut out, &a[1]),
        "zk" => run::<Zk>(&insts, &mut out, &a[1]),
        "hyrax" => run::<Hy>(&insts, &mut out, &a[1]),
        k => panic!("{}", k),
    }
}
