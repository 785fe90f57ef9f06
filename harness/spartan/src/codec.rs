//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }
fn by<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut b = vec![]; t.serialize(&mut b).unwrap(); b }
/// variables at the boundaries of the integer sizes
fn indices(streams: &[Value], out: &mut Out) {
    use zkp_r1cs::Index;
    let all: Vec<Index> = [0usize, 1, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, usize::MAX].iter().flat_map(|i| vec![Index::Input(*i), Index::Aux(*i)]).collect();
    let items: Items = all.iter().map(|i| item("r1cs.index", *i, |i: &Index| format!("{:?}", i))).collect();
    check(out, 0, &items, &streams[..streams.len().min(12)]);
    for a in 0..items.len() { for b in 0..items.len() { if a != b { altered(out, 0, "index", &*items[a], &*items[b]); } } }
}
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out, which: &str) {
    if which == "nizk" { indices(streams, out); }
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        let xs: Vec<F<GOLD>> = x.iter().map(|v| F::i(*v)).collect();
        let mut ys = xs.clone();
        if let Some(y) = ys.last_mut() { *y += F::<GOLD>::i(1) }
        type E = Eng<GOLD>;
        if which == "nizk" {
            let p = match guarded(|| nizk::generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(sd))) { Ok(Ok(p)) => p, _ => continue };
            let again = nizk::Parameters::<E>::deserialize(&by(&p)[..]).unwrap();
            let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
            let (pk, vk) = again.keypair();
            let prove = |k: &nizk::ProveKey<E>| sh(guarded(|| dig(&by(&nizk::create_random_proof(k, c.with(Some(&x), Some(&w)), k.r1cs.r1cs_to_hash(), k.params.param_to_hash(), &mut rng(sd + 1)).unwrap()))));
            let proof = match guarded(|| nizk::create_random_proof(&pk, c.with(Some(&x), Some(&w)), h[0], h[1], &mut rng(sd + 1))) { Ok(Ok(p)) => p, _ => continue };
            let ver = |k: &nizk::VerifyKey<E>, p: &nizk::Proof<E>| sh(guarded(|| {
                let f = |x: &[F<GOLD>]| matches!(guarded(|| nizk::verify_proof(k, p, x, k.r1cs.r1cs_to_hash(), k.params.param_to_hash())), Ok(Ok(true))); (f(&xs), f(&ys)) }));
            let vk2 = nizk::VerifyKey::<E>::deserialize(&by(&vk)[..]).unwrap();
            let items: Items = vec![
                item("spartan.nizk.parameters", p, |p: &nizk::Parameters<E>| { let (k, v) = nizk::Parameters { params: p.params.clone(), r1cs: p.r1cs.clone() }.keypair(); prove(&k) + &ver(&v, &proof) }),
                item("spartan.nizk.pk", pk, |k: &nizk::ProveKey<E>| prove(k)),
                item("spartan.nizk.vk", vk, |k: &nizk::VerifyKey<E>| ver(k, &proof)),
                item("spartan.nizk.proof", proof.clone(), |p: &nizk::Proof<E>| ver(&vk2, p)),
            ];
            check(out, n, &items, s);
        } else {
            let p = match guarded(|| snark::generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(sd))) { Ok(Ok(p)) => p, _ => continue };
            let again = snark::Parameters::<E>::deserialize(&by(&p)[..]).unwrap();
            let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
            let (pk, vk) = again.keypair();
            let prove = |k: &snark::ProveKey<E>| sh(guarded(|| dig(&by(&snark::create_random_proof(k, c.with(Some(&x), Some(&w)), k.r1cs.r1cs_to_hash(), k.params.param_to_hash(), k.encode_comm.encode_to_hash(), &mut rng(sd + 1)).unwrap()))));
            let proof = match guarded(|| snark::create_random_proof(&pk, c.with(Some(&x), Some(&w)), h[0], h[1], h[2], &mut rng(sd + 1))) { Ok(Ok(p)) => p, _ => continue };
            let ver = |k: &snark::VerifyKey<E>, p: &snark::Proof<E>| sh(guarded(|| {
                let f = |x: &[F<GOLD>]| matches!(guarded(|| snark::verify_proof(k, p, x, k.r1cs.r1cs_to_hash(), k.params.param_to_hash(), k.encode_comm.encode_to_hash())), Ok(Ok(true))); (f(&xs), f(&ys)) }));
            let vk2 = snark::VerifyKey::<E>::deserialize(&by(&vk)[..]).unwrap();
            let items: Items = vec![
                item("spartan.snark.parameters", p, |p: &snark::Parameters<E>| { let (k, v) = snark::Parameters { params: p.params.clone(), r1cs: p.r1cs.clone(), encode: p.encode.clone(), encode_comm: p.encode_comm.clone() }.keypair(); prove(&k) + &ver(&v, &proof) }),
                item("spartan.snark.pk", pk, |k: &snark::ProveKey<E>| prove(k)),
                item("spartan.snark.vk", vk, |k: &snark::VerifyKey<E>| ver(k, &proof)),
                item("spartan.snark.proof", proof.clone(), |p: &snark::Proof<E>| ver(&vk2, p)),
            ];
            check(out, n, &items, s);
        }
    }
}
