//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }
fn go<K: Kind>(insts: &[Value], streams: &[Value], out: &mut Out, hashes: impl Fn(&K::P) -> F)
where K::P: CanonicalSerialize + CanonicalDeserialize, K::Proof: CanonicalSerialize + CanonicalDeserialize {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let c = K::circuit(&def);
        let par = || K::params(sd + 1, log2(half(def.ni, def.na) * xs.len()));
        let q = par();
        let (p, o) = match guarded(|| K::prove(&q, &c, &c, &xs, &ws, sd + 2)) { Ok(p) => p, _ => continue };
        let mut oo = o.clone(); oo[0][0] += F::i(1);
        let ver = |q: &K::P, p: &K::Proof| { let f = |o: &VV| matches!(guarded(|| K::verify(q, &c, &def, p, &xs, &ws, o)), Ok(true)); format!("{:?}", (f(&o), f(&oo))) };
        let pb = K::ser(&p);
        let (n1, n2) = if K::NAME == "zk" { ("libra.parameters", "libra.proof") } else { ("hyrax.parameters", "hyrax.proof") };
        let items: Items = vec![
            item(n1, par(), |q: &K::P| ver(q, &p) + &format!("{:?}", hashes(q).raw()) + &sh(guarded(|| K::ser(&K::prove(q, &c, &c, &xs, &ws, sd + 2).0) == pb))),
            item(n2, K::de(&pb).unwrap(), |p: &K::Proof| ver(&q, p)),
        ];
        check(out, n, &items, s);
    }
}
/// the plain proofs have no format of their own; their sum-checks do
fn plain(insts: &[Value], streams: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let def = Def { ni: inst.us("ni"), na: inst.us("na"), raw: raw(&inst["layers"]) };
        let (xs, ws) = (vecs(&inst["xs"]), vecs(&inst["ws"]));
        let c = Plain::circuit(&def);
        let (p, _) = match guarded(|| Plain::prove(&(), &c, &c, &xs, &ws, sd + 2)) { Ok(p) => p, _ => continue };
        let items: Items = p.proofs.into_iter().flat_map(|l| vec![l.proof_phase_one, l.proof_phase_two]).map(|q| item("libra.sumcheck", q, |q: &SumCheckProof<E>| format!("{:?}{:?}", q.polys, q.poly_value_at_r))).collect();
        check(out, n, &items, s);
    }
}
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out, which: &str) {
    match which {
        "plain" => plain(insts, streams, out),
        "zk" => go::<Zk>(insts, streams, out, |q| q.param_to_hash()),
        _ => go::<Hy>(insts, streams, out, |q| q.param_to_hash()),
    }
}
