//! Challenge recordings of both Spartan verifiers (P26).
use super::*;
use mock::fs::*;
use zkp_spartan::data_structure::*;
type E<const P: u64> = Eng<P>;
type B<const P: u64> = R1CSSatProof<E<P>>;
fn g<const P: u64, const K: u8>(x: &mut G<P, K>) { x.0 += F::<P>::i(3) }

fn zksum<const P: u64, T: 'static>(v: &mut Vec<Alt<T>>, p: &str, l: usize, r: usize, get: impl Fn(&mut T) -> &mut SumCheckProof<E<P>> + Copy + 'static) {
    for i in 0..r {
        let n = |s: &str| vec![nm(&format!("{}.{}", p, s), l, i + 1)];
        v.push(alt(n("poly"), "inc", move |t| g(&mut get(t).comm_polys[i])));
        v.push(alt(n("eval"), "inc", move |t| g(&mut get(t).comm_evals[i])));
        v.push(alt(n("d"), "inc", move |t| g(&mut get(t).proofs[i].d_commit)));
        v.push(alt(n("dotcd"), "inc", move |t| g(&mut get(t).proofs[i].dot_cd_commit)));
    }
}
fn ip<const P: u64, T: 'static>(v: &mut Vec<Alt<T>>, p: &str, r: usize, get: impl Fn(&mut T) -> &mut DotProductProof<E<P>> + Copy + 'static) {
    for i in 0..r {
        v.push(alt(vec![nm(&format!("{}.L", p), 0, i + 1)], "inc", move |t| g(&mut get(t).inner_product_proof.l_vec[i])));
        v.push(alt(vec![nm(&format!("{}.R", p), 0, i + 1)], "inc", move |t| g(&mut get(t).inner_product_proof.r_vec[i])));
    }
    v.push(alt(vec![nm(&format!("{}.delta", p), 0, 0)], "inc", move |t| g(&mut get(t).delta)));
    v.push(alt(vec![nm(&format!("{}.beta", p), 0, 0)], "inc", move |t| g(&mut get(t).beta)));
}
fn sat<const P: u64, T: 'static>(b: &B<P>, s: impl Fn(&mut T) -> &mut B<P> + Copy + 'static) -> Vec<Alt<T>> {
    let mut v: Vec<Alt<T>> = vec![];
    for i in 0..b.commit_witness.len() { v.push(alt(vec![nm("witness", 0, i + 1)], "inc", move |t| g(&mut s(t).commit_witness[i]))); }
    zksum(&mut v, "sc1", 0, b.proof_one.comm_polys.len(), move |t| &mut s(t).proof_one);
    zksum(&mut v, "sc2", 0, b.proof_two.comm_polys.len(), move |t| &mut s(t).proof_two);
    let o = |n: &str| vec![nm(n, 0, 0)];
    v.push(alt(o("vc"), "inc", move |t| g(&mut s(t).knowledge_product_commit.vc_commit)));
    v.push(alt(o("va"), "inc", move |t| g(&mut s(t).knowledge_product_commit.va_commit)));
    v.push(alt(o("vb"), "inc", move |t| g(&mut s(t).knowledge_product_commit.vb_commit)));
    v.push(alt(o("prod"), "inc", move |t| g(&mut s(t).knowledge_product_commit.prod_commit)));
    v.push(alt(o("know.t"), "inc", move |t| g(&mut s(t).knowledge_product_proof.knowledge_proof.t_commit)));
    v.push(alt(o("prodp.alpha"), "inc", move |t| g(&mut s(t).knowledge_product_proof.product_proof.commit_alpha)));
    v.push(alt(o("prodp.beta"), "inc", move |t| g(&mut s(t).knowledge_product_proof.product_proof.commit_beta)));
    v.push(alt(o("prodp.delta"), "inc", move |t| g(&mut s(t).knowledge_product_proof.product_proof.commit_delta)));
    v.push(alt(o("eq1.alpha"), "inc", move |t| g(&mut s(t).sc1_eq_proof.alpha)));
    v.push(alt(o("eq2.alpha"), "inc", move |t| g(&mut s(t).sc2_eq_proof.alpha)));
    v.push(alt(o("commit_ry"), "inc", move |t| g(&mut s(t).commit_ry)));
    ip(&mut v, "ip", b.product_proof.inner_product_proof.l_vec.len(), move |t| &mut s(t).product_proof);
    v
}
fn r1cs_alts<const P: u64>(f: &mut Fs, r1cs: &zkp_spartan::r1cs::R1CSInstance<E<P>>, run: &dyn Fn(F<P>) -> &'static str) {
    for m in 0..3 {
        for (what, k) in [("coef", 0), ("index", 1), ("drop", 2)].iter() {
            let mut q = r1cs.clone();
            let mat = match m { 0 => &mut q.a_matrix, 1 => &mut q.b_matrix, _ => &mut q.c_matrix };
            let row = match mat.iter_mut().rev().find(|r| !r.is_empty()) { Some(r) => r, None => continue };
            match k {
                0 => row[0].0 += F::<P>::i(1),
                1 => row[0].1 = match row[0].1 { zkp_r1cs::Index::Input(i) => zkp_r1cs::Index::Aux(i), zkp_r1cs::Index::Aux(i) => zkp_r1cs::Index::Input(i) },
                _ => { row.pop(); }
            }
            let h = q.r1cs_to_hash();
            f.alter(&[nm("r1cs_hash", 0, 0)], what, || run(h));
        }
    }
}
fn v(b: Result<bool, String>) -> &'static str { match b { Ok(true) => "accept", Ok(false) => "reject", Err(_) => "error" } }

pub fn nizk<const P: u64>(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        type S<const P: u64> = Nizk<P>;
        let (pk, vk) = match guarded(|| S::<P>::setup(&c, sd)) { Ok(Ok(k)) => k, _ => continue };
        log::start();
        let p = guarded(|| S::<P>::prove(&pk, &c, &x, &w, sd + 1));
        let drawn = log::stop();
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let b = &p.r1cs_satisfied_proof;
        let sz = json!({"snark": false, "x": x.len(), "w": b.commit_witness.len(), "rx": b.proof_one.comm_polys.len(), "ry": b.proof_two.comm_polys.len(),
            "ip": b.product_proof.inner_product_proof.l_vec.len()});
        let xs: Vec<F<P>> = x.iter().map(|i| F::i(*i)).collect();
        let run = |p: &nizk::Proof<E<P>>, x: &[F<P>], h: &[F<P>]| v(nizk::verify_proof(&vk.k, p, x, h[0], h[1]).map_err(e));
        let mut f = Fs::new(out, n, "spartan-nizk", sz, &drawn, || run(&p, &xs, &vk.h));
        for i in 0..2 { f.alter(&[nm(["r1cs_hash", "params_hash"][i], 0, 0)], "inc", || { let mut h = vk.h.clone(); h[i] += F::<P>::i(1); run(&p, &xs, &h) }); }
        r1cs_alts(&mut f, &vk.k.r1cs, &|h| run(&p, &xs, &[h, vk.h[1]]));
        for i in 0..x.len() { f.alter(&[nm("x", 0, i + 1)], "inc", || { let mut y = xs.clone(); y[i] += F::<P>::i(1); run(&p, &y, &vk.h) }); }
        for (n, k, m) in sat(b, |t: &mut nizk::Proof<E<P>>| &mut t.r1cs_satisfied_proof) {
            f.alter(&n, k, || { let mut q = p.clone(); m(&mut q); run(&q, &xs, &vk.h) });
        }
    }
}
type SP<const P: u64> = snark::Proof<E<P>>;
/// add d*(x^2-x) to a round polynomial: its values at 0 and 1 stay
fn bump<const P: u64>(c: &mut Vec<F<P>>) { while c.len() < 3 { c.push(F::<P>::i(0)); } c[2] += F::<P>::i(5); c[1] -= F::<P>::i(5); }
fn grand<const P: u64>(v: &mut Vec<Alt<SP<P>>>, p: &'static str, pr: &ProductCircuitEvalProof<E<P>>, get: impl Fn(&mut SP<P>) -> &mut ProductCircuitEvalProof<E<P>> + Copy + 'static) {
    let two = F::<P>::i(2);
    for (l, y) in pr.layers_proof.iter().enumerate() {
        for j in 0..y.polys.len() {
            let n = vec![nm(&format!("{}.poly", p), l + 1, j + 1)];
            v.push(alt(n.clone(), "bump", move |t| bump(&mut get(t).layers_proof[l].polys[j].coeffs)));
            v.push(alt(n, "inc", move |t| get(t).layers_proof[l].polys[j].coeffs[0] += F::<P>::i(1)));
        }
        for j in 0..y.claim_prod_left.len() {
            let (a, b) = (nm(&format!("{}.left", p), l + 1, j + 1), nm(&format!("{}.right", p), l + 1, j + 1));
            v.push(alt(vec![a, b], "scale", move |t| {
                let q = &mut get(t).layers_proof[l];
                q.claim_prod_left[j] *= two; q.claim_prod_right[j] = q.claim_prod_right[j] / two;
            }));
        }
    }
    for j in 0..pr.claim_dotp.0.len() {
        let n = |s: &str| nm(&format!("{}.{}", p, s), 0, j + 1);
        v.push(alt(vec![n("drow"), n("dcol")], "scale", move |t| { let q = &mut get(t).claim_dotp; q.0[j] *= two; q.1[j] = q.1[j] / two; }));
        v.push(alt(vec![n("dcol"), n("dval")], "scale", move |t| { let q = &mut get(t).claim_dotp; q.1[j] *= two; q.2[j] = q.2[j] / two; }));
        v.push(alt(vec![n("dval"), n("drow")], "scale", move |t| { let q = &mut get(t).claim_dotp; q.2[j] *= two; q.0[j] = q.0[j] / two; }));
    }
}
pub fn snark<const P: u64>(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        type S<const P: u64> = Snark<P>;
        let (pk, vk) = match guarded(|| S::<P>::setup(&c, sd)) { Ok(Ok(k)) => k, _ => continue };
        log::start();
        let p = guarded(|| S::<P>::prove(&pk, &c, &x, &w, sd + 1));
        let drawn = log::stop();
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let b = &p.r1cs_satisfied_proof;
        let ev = &p.r1cs_evals_proof;
        let (rx, ipn) = (b.proof_one.comm_polys.len(), |d: &DotProductProof<E<P>>| d.inner_product_proof.l_vec.len());
        let (pl, hl) = (&ev.prod_layer_proof, &ev.hash_layer_proof);
        let sz = json!({"snark": true, "x": x.len(), "w": b.commit_witness.len(), "rx": rx, "ry": b.proof_two.comm_polys.len(),
            "ip": ipn(&b.product_proof), "em": vk.k.encode_comm.mem_commit.len(), "eo": vk.k.encode_comm.ops_commit.len(), "dr": ev.derefs_commit.len(),
            "lgn": pl.proof_ops.layers_proof.len(), "lgm": pl.proof_memory.layers_proof.len(),
            "ipd": ipn(&hl.proof_derefs), "ipo": ipn(&hl.proof_ops), "ipm": ipn(&hl.proof_mem)});
        let xs: Vec<F<P>> = x.iter().map(|i| F::i(*i)).collect();
        let run = |vk: &snark::VerifyKey<E<P>>, p: &SP<P>, x: &[F<P>], h: &[F<P>]| v(snark::verify_proof(vk, p, x, h[0], h[1], h[2]).map_err(e));
        log::start();
        let _ = guarded(|| run(&vk.k, &p, &xs, &vk.h));
        let coins = log::stop();
        let (nm0, h) = (|s: &str| nm(s, 0, 0), vk.h.clone());
        {
            let mut f = Fs::new(out, n, "spartan-snark", sz, &drawn, || run(&vk.k, &p, &xs, &h));
            for i in 0..3 { f.alter(&[nm0(["r1cs_hash", "params_hash", "encode_hash"][i])], "inc", || { let mut h = h.clone(); h[i] += F::<P>::i(1); run(&vk.k, &p, &xs, &h) }); }
            r1cs_alts(&mut f, &vk.k.r1cs, &|r| run(&vk.k, &p, &xs, &[r, h[1], h[2]]));
            for i in 0..x.len() { f.alter(&[nm("x", 0, i + 1)], "inc", || { let mut y = xs.clone(); y[i] += F::<P>::i(1); run(&vk.k, &p, &y, &h) }); }
            let mut al = sat(b, |t: &mut SP<P>| &mut t.r1cs_satisfied_proof);
            // claims of the matrices, keeping what has been checked of them
            if coins.len() > 5 * rx + 6 {
                let r: Vec<F<P>> = (0..3).map(|i| F::<P>::new(coins[5 * rx + 3 + i])).collect();
                for (i, j) in [(0, 1), (1, 2), (2, 0)].iter().cloned() {
                    let (ri, rj) = (r[i], r[j]);
                    let z = ["claim.A", "claim.B", "claim.C"];
                    al.push(alt(vec![nm0(z[i]), nm0(z[j])], "shift", move |t: &mut SP<P>| {
                        let mut m = [t.matrix_evals.0, t.matrix_evals.1, t.matrix_evals.2];
                        m[i] += rj; m[j] -= ri;
                        t.matrix_evals = (m[0], m[1], m[2]);
                        let d = &mut t.r1cs_evals_proof.prod_layer_proof.eval_dotp.0;
                        d[i] += rj; d[j] -= ri;
                    }));
                }
            }
            for i in 0..ev.derefs_commit.len() { al.push(alt(vec![nm("derefs", 0, i + 1)], "inc", move |t: &mut SP<P>| g(&mut t.r1cs_evals_proof.derefs_commit[i]))); }
            // memory-checking products, keeping init * writes = reads * audit
            let two = F::<P>::i(2);
            for (s, side) in [("row", 0), ("col", 1)].iter().cloned() {
                fn get<const P: u64>(t: &mut SP<P>, side: usize) -> &mut (F<P>, Vec<F<P>>, Vec<F<P>>, F<P>) {
                    let q = &mut t.r1cs_evals_proof.prod_layer_proof;
                    if side == 0 { &mut q.eval_row } else { &mut q.eval_col }
                }
                let (i0, a0) = (nm0(&format!("{}.init", s)), nm0(&format!("{}.audit", s)));
                al.push(alt(vec![i0.clone(), a0.clone()], "scale", move |t| { let q = get(t, side); q.0 *= two; q.3 *= two; }));
                for i in 0..3 {
                    let (ri, wi) = (nm(&format!("{}.read", s), 0, i + 1), nm(&format!("{}.write", s), 0, i + 1));
                    al.push(alt(vec![ri.clone(), wi.clone()], "scale", move |t| { let q = get(t, side); q.1[i] *= two; q.2[i] *= two; }));
                    al.push(alt(vec![ri.clone(), a0.clone()], "scale", move |t| { let q = get(t, side); q.1[i] *= two; q.3 = q.3 / two; }));
                    al.push(alt(vec![wi.clone(), i0.clone()], "scale", move |t| { let q = get(t, side); q.2[i] *= two; q.0 = q.0 / two; }));
                }
            }
            for i in 0..3 {
                al.push(alt(vec![nm("dotp.left", 0, i + 1), nm("dotp.right", 0, i + 1)], "shift", move |t: &mut SP<P>| {
                    let q = &mut t.r1cs_evals_proof.prod_layer_proof.eval_dotp; q.0[i] += two; q.1[i] -= two;
                }));
            }
            grand(&mut al, "gops", &pl.proof_ops, |t| &mut t.r1cs_evals_proof.prod_layer_proof.proof_ops);
            grand(&mut al, "gmem", &pl.proof_memory, |t| &mut t.r1cs_evals_proof.prod_layer_proof.proof_memory);
            ip(&mut al, "ipd", ipn(&hl.proof_derefs), |t: &mut SP<P>| &mut t.r1cs_evals_proof.hash_layer_proof.proof_derefs);
            ip(&mut al, "ipo", ipn(&hl.proof_ops), |t: &mut SP<P>| &mut t.r1cs_evals_proof.hash_layer_proof.proof_ops);
            ip(&mut al, "ipm", ipn(&hl.proof_mem), |t: &mut SP<P>| &mut t.r1cs_evals_proof.hash_layer_proof.proof_mem);
            for i in 0..3 {
                macro_rules! hash { ($n:expr, $($f:tt)+) => { al.push(alt(vec![nm($n, 0, i + 1)], "inc", move |t: &mut SP<P>| t.r1cs_evals_proof.hash_layer_proof.$($f)+[i] += F::<P>::i(1))) } }
                hash!("deref.row", evals_derefs.0);
                hash!("deref.col", evals_derefs.1);
                hash!("ev.raddr", evals_row.0);
                hash!("ev.rts", evals_row.1);
                hash!("ev.caddr", evals_col.0);
                hash!("ev.cts", evals_col.1);
                hash!("ev.val", evals_val);
            }
            al.push(alt(vec![nm0("ev.raudit")], "inc", |t: &mut SP<P>| t.r1cs_evals_proof.hash_layer_proof.evals_row.2 += F::<P>::i(1)));
            al.push(alt(vec![nm0("ev.caudit")], "inc", |t: &mut SP<P>| t.r1cs_evals_proof.hash_layer_proof.evals_col.2 += F::<P>::i(1)));
            for (n, k, m) in al { f.alter(&n, k, || { let mut q = p.clone(); m(&mut q); run(&vk.k, &q, &xs, &h) }); }
            // the committed matrices are part of the statement
            let kb = { let mut k = vec![]; vk.k.serialize(&mut k).unwrap(); k };
            let mut with = |n: fs::Name, m: &dyn Fn(&mut EncodeCommit<E<P>>)| {
                let mut k = snark::VerifyKey::<E<P>>::deserialize(&kb[..]).unwrap();
                m(&mut k.encode_comm);
                f.alter(&[n], "inc", || run(&k, &p, &xs, &h));
            };
            for i in 0..vk.k.encode_comm.mem_commit.len() { with(nm("enc.mem", 0, i + 1), &|c| g(&mut c.mem_commit[i])); }
            for i in 0..vk.k.encode_comm.ops_commit.len() { with(nm("enc.ops", 0, i + 1), &|c| g(&mut c.ops_commit[i])); }
            with(nm0("enc.n"), &|c| c.n *= 2);
        }
    }
}

/// the elements of a proof by name (P29)
fn named<const P: u64, T: Clone + CanonicalSerialize>(p: &T, alts: Vec<Alt<T>>) -> Vec<blind::At> {
    let by = |t: &T| { let mut b = vec![]; t.serialize(&mut b).unwrap(); b };
    let b = by(p);
    alts.iter().map(|(n, _, m)| { let mut q = p.clone(); m(&mut q); (format!("{}.{}.{}", n[0].0, n[0].1, n[0].2), blind::changed(&b, &by(&q))[0]) }).collect()
}
fn first(n: &str) -> bool { [".d.", ".dotcd.", ".t.", ".alpha.", ".beta.", ".delta."].iter().any(|s| n.contains(s)) }
pub fn blinded_nizk<const P: u64>(b: &[u8]) -> Vec<(&'static str, Vec<blind::At>)> {
    let p = Nizk::<P>::de(b).unwrap();
    let a = sat(&p.r1cs_satisfied_proof, |t: &mut nizk::Proof<E<P>>| &mut t.r1cs_satisfied_proof);
    blind::groups(named::<P, _>(&p, a), &first, &|_| false, b.len() / 8)
}
pub fn blinded_snark<const P: u64>(b: &[u8]) -> Vec<(&'static str, Vec<blind::At>)> {
    let p = Snark::<P>::de(b).unwrap();
    let a = sat(&p.r1cs_satisfied_proof, |t: &mut SP<P>| &mut t.r1cs_satisfied_proof);
    let n = { let mut v = vec![]; p.r1cs_satisfied_proof.serialize(&mut v).unwrap(); v.len() / 8 };
    blind::groups(named::<P, _>(&p, a), &first, &|_| false, n)
}
