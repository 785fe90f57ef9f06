//! Challenge recordings of the Libra and Hyrax verifiers (P26).
use super::*;
use mock::fs::*;
use zkp_libra::sumcheck::ZKSumCheckProof;

type Hh = (F, F); // hashes of the circuit and the parameters
fn g<const K: u8>(x: &mut G<P, K>) { x.0 += F::i(3) }
fn v(b: bool) -> &'static str { if b { "accept" } else { "reject" } }
/// add 5(x^2-x): the values at 0 and 1 stay
fn bump(p: &mut DensePolynomial<F>) { while p.coeffs.len() < 3 { p.coeffs.push(F::i(0)) } p.coeffs[2] += F::i(5); p.coeffs[1] -= F::i(5); }
fn o(s: &str, d: usize) -> Vec<Name> { vec![nm(s, d, 0)] }

fn plain(p: &LinearGKRProof<E>) -> Vec<Alt<LinearGKRProof<E>>> {
    let mut a: Vec<Alt<LinearGKRProof<E>>> = vec![];
    for d in 0..p.proofs.len() {
        for i in 0..p.proofs[d].proof_phase_one.polys.len() {
            a.push(alt(vec![nm("p1.poly", d + 1, i + 1)], "bump", move |t: &mut LinearGKRProof<E>| bump(&mut t.proofs[d].proof_phase_one.polys[i])));
            a.push(alt(vec![nm("p2.poly", d + 1, i + 1)], "bump", move |t: &mut LinearGKRProof<E>| bump(&mut t.proofs[d].proof_phase_two.polys[i])));
        }
        // values v, with x*v1 + x*v2 + v3 kept
        a.push(alt(vec![nm("v1", d + 1, 2), nm("v1", d + 1, 3)], "shift", move |t: &mut LinearGKRProof<E>| { let v = &mut t.proofs[d].proof_phase_one.poly_value_at_r; v[1] += F::i(1); v[2] -= F::i(1) }));
        a.push(alt(vec![nm("v1", d + 1, 3), nm("v1", d + 1, 4)], "shift", move |t: &mut LinearGKRProof<E>| { let v = &mut t.proofs[d].proof_phase_one.poly_value_at_r; let x = v[0]; v[2] += F::i(1); v[3] -= x }));
        a.push(alt(vec![nm("v1", d + 1, 1), nm("v1", d + 1, 4)], "shift", move |t: &mut LinearGKRProof<E>| { let v = &mut t.proofs[d].proof_phase_one.poly_value_at_r; let y = v[1] + v[2]; v[0] += F::i(1); v[3] -= y }));
        for i in 0..3 { a.push(alt(vec![nm("v2", d + 1, i + 1)], "inc", move |t: &mut LinearGKRProof<E>| t.proofs[d].proof_phase_two.poly_value_at_r[i] += F::i(1))); }
    }
    a
}
pub type ZP = ZKLinearGKRProof<E>;
fn zksum<T: 'static>(a: &mut Vec<Alt<T>>, p: &str, d: usize, r: usize, get: impl Fn(&mut T) -> &mut ZKSumCheckProof<E> + Copy + 'static) {
    for i in 0..r {
        let n = |s: &str| vec![nm(&format!("{}.{}", p, s), d, i + 1)];
        a.push(alt(n("poly"), "inc", move |t: &mut T| g(&mut get(t).comm_polys[i])));
        a.push(alt(n("eval"), "inc", move |t: &mut T| g(&mut get(t).comm_evals[i])));
        a.push(alt(n("d"), "inc", move |t: &mut T| g(&mut get(t).proofs[i].d_commit)));
        a.push(alt(n("dotcd"), "inc", move |t: &mut T| g(&mut get(t).proofs[i].dot_cd_commit)));
    }
}
macro_rules! input { ($T:ty, $a:ident, $p:ident, $q:expr, $y:ident, $prod:ident, $eq:ident) => {
    $a.push(alt(o(concat!("y", $q), 0), "inc", |t: &mut $T| g(&mut t.$y)));
    for i in 0..$p.$prod.bullet_reduce_proof.l_vec.len() {
        $a.push(alt(vec![nm(concat!("ip", $q, ".L"), 0, i + 1)], "inc", move |t: &mut $T| g(&mut t.$prod.bullet_reduce_proof.l_vec[i])));
        $a.push(alt(vec![nm(concat!("ip", $q, ".R"), 0, i + 1)], "inc", move |t: &mut $T| g(&mut t.$prod.bullet_reduce_proof.r_vec[i])));
    }
    $a.push(alt(o(concat!("ip", $q, ".delta"), 0), "inc", |t: &mut $T| g(&mut t.$prod.delta)));
    $a.push(alt(o(concat!("ip", $q, ".beta"), 0), "inc", |t: &mut $T| g(&mut t.$prod.beta)));
    $a.push(alt(o(concat!("eq", $q, ".alpha"), 0), "inc", |t: &mut $T| g(&mut t.$eq.alpha)));
} }
pub fn zk(p: &ZP) -> Vec<Alt<ZP>> {
    let mut a: Vec<Alt<ZP>> = vec![];
    for i in 0..p.comm_witness.len() { a.push(alt(vec![nm("witness", 0, i + 1)], "inc", move |t: &mut ZP| g(&mut t.comm_witness[i]))); }
    for d in 0..p.proofs.len() {
        let r = p.proofs[d].proof_phase_one.comm_polys.len();
        zksum(&mut a, "p1", d + 1, r, move |t: &mut ZP| &mut t.proofs[d].proof_phase_one);
        zksum(&mut a, "p2", d + 1, p.proofs[d].proof_phase_two.comm_polys.len(), move |t: &mut ZP| &mut t.proofs[d].proof_phase_two);
        a.push(alt(o("cx", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].comm_x)));
        a.push(alt(o("cy", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].comm_y)));
        a.push(alt(o("cz", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].comm_z)));
        a.push(alt(o("prod.alpha", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].prod_proof.comm_alpha)));
        a.push(alt(o("prod.beta", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].prod_proof.comm_beta)));
        a.push(alt(o("prod.delta", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].prod_proof.comm_delta)));
        a.push(alt(o("eq.alpha", d + 1), "inc", move |t: &mut ZP| g(&mut t.proofs[d].eq_proof.alpha)));
    }
    input!(ZP, a, p, "0", comm_y0, prod_proof0, eq_proof0);
    input!(ZP, a, p, "1", comm_y1, prod_proof1, eq_proof1);
    a
}
pub type HPf = <Hy as Kind>::Proof;
pub fn hy(p: &HPf) -> Vec<Alt<HPf>> {
    let mut a: Vec<Alt<HPf>> = vec![];
    for i in 0..p.comm_witness.len() { a.push(alt(vec![nm("witness", 0, i + 1)], "inc", move |t: &mut HPf| g(&mut t.comm_witness[i]))); }
    for d in 0..p.proofs.len() {
        let q = &p.proofs[d];
        for i in 0..q.comm_polys.len() { a.push(alt(vec![nm("sc.poly", d + 1, i + 1)], "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_polys[i]))); }
        for i in 0..q.comm_evals.len() { a.push(alt(vec![nm("sc.eval", d + 1, i + 1)], "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_evals[i]))); }
        for i in 0..q.comm_deltas.len() { a.push(alt(vec![nm("delta", d + 1, i + 1)], "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_deltas[i]))); }
        a.push(alt(o("c", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_c)));
        a.push(alt(o("cx", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_x)));
        a.push(alt(o("cy", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_y)));
        a.push(alt(o("cz", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_z)));
        a.push(alt(o("prod.alpha", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].prod_proof.comm_alpha)));
        a.push(alt(o("prod.beta", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].prod_proof.comm_beta)));
        a.push(alt(o("prod.delta", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].prod_proof.comm_delta)));
    }
    input!(HPf, a, p, "0", comm_y0, prod_proof0, eq_proof0);
    input!(HPf, a, p, "1", comm_y1, prod_proof1, eq_proof1);
    a
}
/// one verification with the given statement: circuit, inputs, outputs, hashes
fn kind<K: Kind>(insts: &[Value], out: &mut Out, proto: &str, params: bool,
    hash: impl Fn(&K::C, &K::P) -> Hh,
    verify: impl Fn(&K::P, &K::C, &K::Proof, &VV, &VV, Hh) -> bool,
    sizes: impl Fn(&K::C, &K::Proof, &VV, &VV) -> Value,
    alts: impl Fn(&K::Proof) -> Vec<Alt<K::Proof>>)
{
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let c = K::circuit(&def);
        let par = K::params(sd + 1, log2(half(def.ni, def.na) * xs.len()));
        log::start();
        let r = guarded(|| K::prove(&par, &c, &c, &xs, &ws, sd + 2));
        let drawn = log::stop();
        let (p, o) = match r { Ok(p) => p, _ => continue };
        // the plain verifier sees the whole input layer
        let xs = if K::NAME == "plain" {
            let h = half(def.ni, def.na);
            let mut full = ws[0].clone(); full.resize(h, F::i(0)); full.extend(&xs[0]); full.resize(2 * h, F::i(0)); vec![full]
        } else { xs };
        let h0 = hash(&c, &par);
        let run = |p: &K::Proof, x: &VV, o: &VV, h: Hh| v(verify(&par, &c, p, x, o, h));
        let sz = sizes(&c, &p, &xs, &o);
        let mut f = Fs::new(out, n, proto, sz, &drawn, || run(&p, &xs, &o, h0));
        f.alter(&[nm("circuit_hash", 0, 0)], "inc", || run(&p, &xs, &o, (h0.0 + F::i(1), h0.1)));
        if params { f.alter(&[nm("params_hash", 0, 0)], "inc", || run(&p, &xs, &o, (h0.0, h0.1 + F::i(1)))); }
        // hashes of other circuits and of other parameters
        for a in inst.arr("alts") {
            let d = Def { raw: raw(a), ..def.clone() };
            if d.raw == def.raw { continue; }
            let q = match guarded(|| K::circuit(&d)) { Ok(q) => q, _ => continue };
            let h = match guarded(|| hash(&q, &par)) { Ok(h) => h, _ => continue };
            f.alter(&[nm("circuit_hash", 0, 0)], "circuit", || run(&p, &xs, &o, (h.0, h0.1)));
        }
        if params {
            let other = K::params(sd + 7, log2(half(def.ni, def.na) * xs.len()));
            let h = hash(&c, &other);
            f.alter(&[nm("params_hash", 0, 0)], "params", || run(&p, &xs, &o, (h0.0, h.1)));
        }
        for (s, val) in [("x", &xs), ("out", &o)].iter() {
            for i in 0..val.len() { for j in 0..val[i].len() {
                let mut m = (*val).clone(); m[i][j] += F::i(1);
                f.alter(&[nm(s, i + 1, j + 1)], "inc", || if *s == "x" { run(&p, &m, &o, h0) } else { run(&p, &xs, &m, h0) });
            } }
        }
        let b = K::ser(&p);
        for (names, k, m) in alts(&p) { f.alter(&names, k, || { let mut q = K::de(&b).unwrap(); m(&mut q); run(&q, &xs, &o, h0) }); }
    }
}
pub fn main(insts: &[Value], out: &mut Out, which: &str) {
    let lbits = |c: &LC| -> Vec<usize> { (0..c.depth - 1).map(|d| c.layers[c.depth - d - 2].bit_size).collect() };
    match which {
        "plain" => kind::<Plain>(insts, out, "libra", false, |c, _| (c.circuit_to_hash::<E>(), F::i(0)),
            |_, c, p, x, o, h| p.verify(c, &o[0], &x[0], h.0),
            |c, _, x, o| json!({"x": x[0].len(), "out": o[0].len(), "ob": c.layers[c.depth - 1].bit_size, "bits": lbits(c)}), plain),
        "zk" => kind::<Zk>(insts, out, "zklibra", true, |c, p| (c.circuit_to_hash::<E>(), p.param_to_hash()),
            |q, c, p, x, o, h| p.verify(q, c, &o[0], &x[0], h.0, h.1),
            |c, p, x, o| json!({"x": x[0].len(), "out": o[0].len(), "w": p.comm_witness.len(), "ob": c.layers[c.depth - 1].bit_size, "bits": lbits(c),
                "ip": p.prod_proof0.bullet_reduce_proof.l_vec.len()}), zk),
        "hyrax" => kind::<Hy>(insts, out, "hyrax", true, |c, p| (c.circuit_to_hash::<E>(), p.param_to_hash()),
            |q, c, p, x, o, h| p.verify(q, o, x, c, h.0, h.1),
            |c, p, x, o| {
                let bits: Vec<usize> = (0..c.depth - 1).map(|d| log2(c.layers[c.depth - d - 2].gates_count.next_power_of_two())).collect();
                let lgn = log2(o.len());
                json!({"copies": o.len(), "x": x[0].len(), "out": o[0].len(), "w": p.comm_witness.len(), "lgn": lgn, "bits": bits,
                    "ob": lgn + log2(o[0].len().next_power_of_two()), "ip": p.prod_proof0.bullet_reduce_proof.l_vec.len()})
            }, hy),
        k => panic!("kind {}", k),
    }
}

/// how proofs depend on the prover's randomness (P29)
pub fn blinded<K: Kind>(insts: &[Value], out: &mut Out, alts: impl Fn(&K::Proof) -> Vec<Alt<K::Proof>>, more: impl Fn(&K::Proof) -> Vec<Alt<K::Proof>>, prove: &dyn Fn(&K::P, &K::C, &VV, &VV, &mut ScriptRng) -> K::Proof) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let c = K::circuit(&def);
        let par = K::params(sd + 1, log2(half(def.ni, def.na) * xs.len()));
        let mut vs = vec![ws.clone()];
        for i in 0..ws.len() { for j in 0..ws[i].len() { let mut m = ws.clone(); m[i][j] += F::i(1); vs.push(m); } }
        let first = |n: &str| [".d.", ".dotcd.", ".alpha.", ".beta.", ".delta."].iter().any(|s| n.contains(s)) || n.starts_with("delta.") || n.starts_with("c.");
        blind::run::<P>(out, n, K::NAME, sd, vs.len(), &|b| {
            let p = K::de(b).unwrap();
            let mut named = alts(&p);
            named.extend(more(&p));
            let names = named.iter().map(|(n, _, m)| { let mut q = K::de(b).unwrap(); m(&mut q); (format!("{}.{}.{}", n[0].0, n[0].1, n[0].2), blind::changed(b, &K::ser(&q))[0]) }).collect();
            blind::groups(names, &first, &|n| n.starts_with("a0."), b.len() / 8)
        }, &|r, v| Some(K::ser(&prove(&par, &c, &xs, &vs[v], r))));
    }
}

/// the verifier computes the claims of the sum-checks itself
pub fn claims(p: &HPf) -> Vec<Alt<HPf>> { (0..p.proofs.len()).map(|d| alt(o("a0", d + 1), "inc", move |t: &mut HPf| g(&mut t.proofs[d].comm_a0))).collect() }
