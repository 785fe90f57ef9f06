//! Histories of marlin's polynomial commitment, in the exponents.
use ark_ff::Zero;
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use mock::*;
use zkp_marlin::pc::*;

fn one<const P: u64>(q: &Value, id: usize, out: &mut Out) {
    type G1<const P: u64> = G<P, 1>;
    let f = |v: i64| Fp::<P>::i(v);
    let raws = |v: &[G1<P>]| json!(v.iter().map(|x| x.raw()).collect::<Vec<_>>());
    let name = |i: i64| format!("p{}", i);
    let idof = |s: &str| s[1..].parse::<i64>().unwrap();
    let md = q.us("md");
    let mut r = rng(seed() * 7000 + id as u64);
    let mut pp = None;
    for _ in 0..60 {
        if let Ok(Ok(x)) = guarded(|| PC::<Eng<P>>::setup(md, &mut r)) {
            // zero or degenerate generators have negligible probability in the real groups
            let ok = x.powers_of_g.len() > 0 && x.powers_of_gamma_g.len() > 0 && x.powers_of_g[0].raw() != 0 && x.powers_of_gamma_g[0].raw() != 0 && x.h.raw() != 0 && x.beta_h.raw() != 0;
            if ok { pp = Some(x); break; }
        }
    }
    let pp = match pp { Some(x) => x, None => { out.put(&json!({"ev": "key", "res": "err", "inst": id, "p": P, "md": md})); return; } };
    out.put(&json!({"ev": "key", "res": "ok", "inst": id, "p": P, "md": md, "pg": raws(&pp.powers_of_g), "pgg": raws(&pp.powers_of_gamma_g), "h": pp.h.raw(), "bh": pp.beta_h.raw()}));
    let mut keys = None;
    let mut polys: Vec<LabeledPolynomial<'static, Fp<P>>> = vec![];
    let mut comms: Vec<LabeledCommitment<Eng<P>>> = vec![];
    let mut rands: Vec<Randomness<Fp<P>>> = vec![];
    let mut last: Option<(Vec<usize>, Fp<P>, Fp<P>, Proof<Eng<P>>)> = None;
    let mut blast: Option<(QuerySet<Fp<P>>, Fp<P>, Vec<Proof<Eng<P>>>)> = None;
    let jpf = |x: &Proof<Eng<P>>| json!({"w": x.w.raw(), "rv": x.rand_v.map(|v| v.raw()).unwrap_or(0)});
    let jc = |x: &LabeledCommitment<Eng<P>>| json!({"id": idof(x.label()), "c": x.commitment().comm.0.raw(),
        "s": x.commitment().shifted_comm.as_ref().map(|s| s.0.raw() as i64).unwrap_or(-1), "d": x.degree_bound().map(|d| d as i64).unwrap_or(-1)});
    for o in q.arr("ops") {
        let mut e = o.clone();
        e["ev"] = o["op"].clone();
        e["inst"] = json!(id);
        let i = |k: &str| o[k].as_i64().unwrap();
        let res = match o.st("op") {
            "trim" => match guarded(|| PC::<Eng<P>>::trim(&pp, o.us("sd"))) {
                Ok(Ok((ck, vk))) => {
                    e["csd"] = json!(ck.supported_degree);
                    e["pg"] = raws(&ck.powers_of_g);
                    e["pgg"] = raws(&ck.powers_of_gamma_g);
                    e["vk"] = json!({"g": vk.g.raw(), "gg": vk.gamma_g.raw(), "h": vk.h.raw(), "bh": vk.beta_h.raw(), "sd": vk.supported_degree});
                    keys = Some((ck, vk));
                    polys.clear(); last = None; blast = None;
                    "ok"
                }
                _ => { polys.clear(); last = None; blast = None; "err" }
            },
            "commit" => {
                let (ck, _) = match &keys { Some(k) => k, None => continue };
                let ps: Vec<LabeledPolynomial<'static, Fp<P>>> = o.arr("fs").iter().map(|x| {
                    let opt = |k: &str| { let v = x[k].as_i64().unwrap(); if v < 0 { None } else { Some(v as usize) } };
                    LabeledPolynomial::new_owned(name(x["id"].as_i64().unwrap()), DensePolynomial::from_coefficients_vec(x.ints("c").into_iter().map(f).collect()), opt("b"), opt("h"))
                }).collect();
                let with = i("rng") == 1;
                match guarded(|| PC::<Eng<P>>::commit(ck, &ps, if with { Some(&mut r) } else { None })) {
                    Ok(Ok((c, s))) => {
                        let co = |x: &Rand<Fp<P>>| json!(x.blinding_polynomial.coeffs.iter().map(|v| v.raw()).collect::<Vec<_>>());
                        e["out"] = json!(c.iter().zip(&s).map(|(c, s)| { let mut v = jc(c); v["r"] = co(&s.rand); v["sr"] = s.shifted_rand.as_ref().map(|x| co(x)).unwrap_or(json!([])); v }).collect::<Vec<_>>());
                        polys = ps; comms = c; rands = s; last = None; blast = None;
                        "ok"
                    }
                    _ => "err",
                }
            }
            "open" => {
                if polys.is_empty() || keys.is_none() { continue; }
                let (ck, _) = keys.as_ref().unwrap();
                let sel: Vec<usize> = o.ints("sel").iter().map(|x| *x as usize - 1).collect();
                if sel.iter().any(|k| *k >= polys.len()) { continue; }
                let (z, xi) = (f(i("z")), f(i("xi")));
                match guarded(|| PC::<Eng<P>>::open(ck, sel.iter().map(|k| &polys[*k]), z, xi, sel.iter().map(|k| &rands[*k]))) {
                    Ok(Ok(pf)) => { let j = jpf(&pf); e["w"] = j["w"].clone(); e["rv"] = j["rv"].clone(); last = Some((sel, z, xi, pf)); "ok" }
                    _ => "err",
                }
            }
            "check" => {
                let (sel, z, xi, pf) = match &last { Some(x) => x.clone(), None => continue };
                let (_, vk) = keys.as_ref().unwrap();
                let (mut z, mut xi, mut pf) = (z, xi, pf);
                let mut cs: Vec<LabeledCommitment<Eng<P>>> = sel.iter().map(|k| comms[*k].clone()).collect();
                let mut vs: Vec<Fp<P>> = sel.iter().map(|k| polys[*k].evaluate(z)).collect();
                let k = (o.us("k") - 1) % cs.len();
                let (d, x) = (f(i("e")), G1::<P>::from_raw(i("e") as u64));
                let mut c = cs[k].commitment().clone();
                let mut b = cs[k].degree_bound();
                match o.st("alter") {
                    "value" => vs[k] += d,
                    "zero" => vs[k] = f(0),
                    "point" => z += d,
                    "comm" => c.comm.0 = c.comm.0 + x,
                    "shift" => if let Some(s) = c.shifted_comm.as_mut() { s.0 = s.0 + x },
                    "bound" => if b.is_some() { b = Some(o.us("d")) },
                    "dropshift" => c.shifted_comm = None,
                    "dropbound" => b = None,
                    "w" => pf.w = pf.w + x,
                    "rv" => pf.rand_v = Some(pf.rand_v.unwrap_or(f(0)) + d),
                    "norv" => pf.rand_v = None,
                    "xi" => xi += d,
                    "swap" => { let m = cs.len() - 1; vs.swap(k, m); }
                    _ => {}
                }
                cs[k] = LabeledCommitment::new(cs[k].label().clone(), c, b);
                e["cls"] = json!(cs.iter().zip(&vs).map(|(c, v)| { let mut j = jc(c); j["v"] = json!(v.raw()); j }).collect::<Vec<_>>());
                e["z"] = json!(z.raw()); e["xi"] = json!(xi.raw());
                let j = jpf(&pf); e["w"] = j["w"].clone(); e["rv"] = j["rv"].clone();
                match guarded(|| PC::<Eng<P>>::check(vk, &cs, z, vs.clone(), &pf, xi)) { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
            }
            "bopen" => {
                if polys.is_empty() || keys.is_none() { continue; }
                let (ck, _) = keys.as_ref().unwrap();
                let xi = f(i("xi"));
                let qs: QuerySet<Fp<P>> = o.arr("qs").iter().map(|x| (polys[x.us("k") - 1].label().clone(), f(x["z"].as_i64().unwrap()))).collect();
                match guarded(|| PC::<Eng<P>>::batch_open(ck, &polys, &qs, xi, &rands)) {
                    Ok(Ok(pfs)) => { e["pfs"] = json!(pfs.iter().map(jpf).collect::<Vec<_>>()); blast = Some((qs, xi, pfs)); "ok" }
                    _ => "err",
                }
            }
            _ => {
                let (qs, xi, pfs) = match &blast { Some(x) => x.clone(), None => continue };
                let (_, vk) = keys.as_ref().unwrap();
                let (mut qs, mut xi, mut pfs) = (qs, xi, pfs);
                let mut cs = comms.clone();
                let mut vals = Evaluations::new();
                for (l, z) in &qs { vals.insert((l.clone(), *z), polys.iter().find(|p| p.label() == l).unwrap().evaluate(*z)); }
                let k = o.us("k");
                let (d, x) = (f(i("e")), G1::<P>::from_raw(i("e") as u64));
                let keyv: Vec<(String, Fp<P>)> = qs.iter().cloned().collect();
                let pick = keyv[k % keyv.len()].clone();
                let np = pfs.len();
                match o.st("alter") {
                    "value" => { *vals.get_mut(&pick).unwrap() += d; }
                    "swapvalues" => { let o2 = keyv[(k + 1) % keyv.len()].clone(); let (a, b) = (vals[&pick], vals[&o2]); vals.insert(pick, b); vals.insert(o2, a); }
                    "swapproofs" => pfs.swap(k % np, (k + 1) % np),
                    "w" => pfs[k % np].w = pfs[k % np].w + x,
                    "rv" => pfs[k % np].rand_v = Some(pfs[k % np].rand_v.unwrap_or(f(0)) + d),
                    "comm" => { let m = k % cs.len(); let mut c = cs[m].commitment().clone(); c.comm.0 = c.comm.0 + x; cs[m] = LabeledCommitment::new(cs[m].label().clone(), c, cs[m].degree_bound()); }
                    "point" => { let z0 = pick.1; qs = qs.into_iter().map(|(l, z)| if z == z0 { (l, z + d) } else { (l, z) }).collect();
                        let mut v2 = Evaluations::new(); for ((l, z), v) in vals { v2.insert((l, if z == z0 { z + d } else { z }), v); } vals = v2; }
                    "missing" => { vals.remove(&pick); }
                    "nocomm" => { cs.remove(k % cs.len()); }
                    "lessproofs" => { pfs.pop(); }
                    "moreproofs" => { let p = pfs[k % np].clone(); pfs.push(p); }
                    "xi" => xi += d,
                    _ => {}
                }
                e["comms"] = json!(cs.iter().map(jc).collect::<Vec<_>>());
                e["qs"] = json!(qs.iter().map(|(l, z)| json!({"id": idof(l), "z": z.raw()})).collect::<Vec<_>>());
                e["vals"] = json!(vals.iter().map(|((l, z), v)| json!({"id": idof(l), "z": z.raw(), "v": v.raw()})).collect::<Vec<_>>());
                e["pfs"] = json!(pfs.iter().map(jpf).collect::<Vec<_>>());
                e["xi"] = json!(xi.raw());
                match guarded(|| PC::<Eng<P>>::batch_check(vk, &cs, &qs, &vals, &pfs, xi)) { Ok(Ok(true)) => "accept", Ok(Ok(false)) => "reject", Ok(Err(_)) => "error", Err(_) => "panic" }
            }
        };
        e["res"] = json!(res);
        out.put(&e);
    }
    let _ = Fp::<P>::zero();
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (id, q) in read_lines(&a[1]).iter().enumerate() {
        match q.us("p") { 97 => one::<97>(q, id, &mut out), 7681 => one::<7681>(q, id, &mut out), 12289 => one::<12289>(q, id, &mut out), p => panic!("{}", p) }
    }
}
