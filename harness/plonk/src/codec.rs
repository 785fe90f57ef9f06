//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let calls = inst.arr("calls").clone();
        let vals = inst.ints("vals");
        let (cs, pk, vk) = match guarded(|| { let cs = composer(&calls, &vals, &[]); keygen(&cs, sd).map(|k| (cs, k.0, k.1)) }) { Ok(Ok(k)) => k, _ => continue };
        let proof = match guarded(|| PL::prove(&pk, &cs, &mut rng(sd + 1))) { Ok(Ok(p)) => p, _ => continue };
        let pi = cs.public_inputs().to_vec();
        let mut qi = pi.clone();
        if let Some(y) = qi.last_mut() { *y += F::one() }
        let ver = |k: &VerifierKey<F, PC>, p: &Proof<F, PC>| sh(guarded(|| { let f = |x: &[F]| matches!(guarded(|| PL::verify(k, x, copy(p))), Ok(Ok(true))); (f(&pi), f(&qi)) }));
        let mut items: Items = vec![
            item("plonk.vk", vk.clone(), |k: &VerifierKey<F, PC>| ver(k, &proof) + &format!("{:?}{:?}", k.info, k.labels)),
            item("plonk.proof", copy(&proof), |p: &Proof<F, PC>| ver(&vk, p)),
        ];
        if let Ok(srs) = PL::setup(cs.size().next_power_of_two().max(2), &mut rng(sd)) {
            items.push(item("plonk.srs", srs, |s: &zkp_plonk::UniversalParams<F, PC>| sh(guarded(|| {
                let (pk, vk) = PL::keygen(s, &cs, ks()).unwrap(); let p = PL::prove(&pk, &cs, &mut rng(sd + 1)).unwrap(); let mut b = vec![]; p.serialize(&mut b).unwrap(); dig(&b) + &ver(&vk, &p) }))));
        }
        check(out, n, &items, s);
        for i in 0..4 { let mut k = vk.clone(); k.info.ks[i] += F::i(1); altered(out, n, "ks", &*items[0], &*item("", k, |_| String::new())); }
        let mut k = vk.clone(); k.info.n += 1 << 33; altered(out, n, "n", &*items[0], &*item("", k, |_| String::new()));
        let mut k = vk.clone(); k.labels[0].push('x'); altered(out, n, "labels", &*items[0], &*item("", k, |_| String::new()));
        let mut k = vk.clone(); k.comms.pop(); altered(out, n, "comms", &*items[0], &*item("", k, |_| String::new()));
    }
}
