//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(e) => format!("E{:?}", e) } }
type E = ark_bls12_381::Bls12_381;
fn objects<E: ark_ec::PairingEngine>(c: &Circ, x: &[i64], w: &[i64], sd: u64, out: &mut Out, n: usize, streams: &[Value]) {
    let p = match guarded(|| generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(sd))) { Ok(Ok(p)) => p, _ => return };
    let proof = match guarded(|| create_random_proof(&p, c.with(Some(x), Some(w)), &mut rng(sd + 1))) { Ok(Ok(p)) => p, _ => return };
    let xs: Vec<E::Fr> = x.iter().map(|v| fi(*v)).collect();
    let mut ys = xs.clone();
    if let Some(y) = ys.last_mut() { *y += <E::Fr as ark_ff::One>::one(); }
    let verify = |vk: &VerifyKey<E>, p: &Proof<E>| sh(guarded(|| { let k = prepare_verifying_key(vk); (verify_proof(&k, p, &xs).is_ok_and(|b| b), verify_proof(&k, p, &ys).is_ok_and(|b| b)) }));
    let items: Items = vec![
        item("groth16.parameters", p.clone(), |q: &Parameters<E>| format!("{}{}", *q == p,
            sh(guarded(|| { let pr = create_random_proof(q, c.with(Some(x), Some(w)), &mut rng(sd + 1)).unwrap(); pr == proof })))),
        item("groth16.vk", p.vk.clone(), |k: &VerifyKey<E>| format!("{}{}", *k == p.vk, verify(k, &proof))),
        item("groth16.proof", proof.clone(), |q: &Proof<E>| format!("{}{}", *q == proof, verify(&p.vk, q))),
    ];
    check(out, n, &items, streams);
    let alts: Vec<(&'static str, Box<dyn Fn(&mut Proof<E>)>)> = vec![("a", Box::new(|q| q.a = p.vk.alpha_g1)), ("b", Box::new(|q| q.b = p.vk.beta_g2)), ("c", Box::new(|q| q.c = p.vk.alpha_g1))];
    for (s, m) in &alts { let mut q = proof.clone(); m(&mut q); if q != proof { altered(out, n, &format!("proof.{}", s), &*items[2], &*item("", q, |_| String::new())); } }
    let alts: Vec<(&'static str, Box<dyn Fn(&mut Parameters<E>)>)> = vec![
        ("vk.alpha_g1", Box::new(|q| q.vk.alpha_g1 = proof.a)), ("vk.beta_g2", Box::new(|q| q.vk.beta_g2 = proof.b)), ("vk.gamma_g2", Box::new(|q| q.vk.gamma_g2 = proof.b)),
        ("vk.delta_g2", Box::new(|q| q.vk.delta_g2 = proof.b)), ("beta_g1", Box::new(|q| q.beta_g1 = proof.a)), ("delta_g1", Box::new(|q| q.delta_g1 = proof.a)),
        ("vk.gamma_abc_g1", Box::new(|q| { q.vk.gamma_abc_g1.pop(); })), ("a_query", Box::new(|q| { q.a_query.pop(); })), ("b_g1_query", Box::new(|q| { q.b_g1_query.pop(); })),
        ("b_g2_query", Box::new(|q| { q.b_g2_query.pop(); })), ("h_query", Box::new(|q| { q.h_query.pop(); })), ("l_query", Box::new(|q| { q.l_query.pop(); })),
    ];
    for (s, m) in &alts { let mut q = p.clone(); m(&mut q); if q != p { altered(out, n, s, &*items[0], &*item("", q, |_| String::new())); } }
}
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        objects::<Eng<GOLD>>(&c, &x, &w, sd, out, n, s);
        if n < 3 || thorough() && n < 20 { objects::<E>(&c, &x, &w, sd, out, n, s); }
    }
}
