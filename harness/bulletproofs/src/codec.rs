//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        type Q = Bp<GOLD>;
        let r = guarded(|| create_random_proof::<Eng<GOLD>, _, _>(c.with(Some(&x), Some(&w)), &mut rng(sd)));
        let (g, r, p) = match r { Ok(Ok(r)) => r, _ => continue };
        let (gb, rb, pb) = (by(&g), by(&r), by(&p));
        let mut y = x.clone();
        if let Some(z) = y.last_mut() { *z += 1 }
        let ver = |g: &[u8], r: &[u8], p: &[u8]| sh(guarded(|| {
            let k = Key::<GOLD> { gens: g.to_vec(), r1cs: r.to_vec(), seed: 0 };
            let f = |x: &[i64]| matches!(Q::verify(&k, &p.to_vec(), x), Ok(true));
            (f(&x), f(&y))
        }));
        // compared through the compressed form: the types cannot be cloned
        let items: Items = vec![
            item("bulletproofs.generators", g, |g: &Generators<Eng<GOLD>>| ver(&by(g), &rb, &pb)),
            item("bulletproofs.circuit", r, |r: &R1csCircuit<Eng<GOLD>>| ver(&gb, &by(r), &pb)),
            item("bulletproofs.proof", p, |p: &Proof<Eng<GOLD>>| ver(&gb, &rb, &by(p))),
        ];
        check(out, n, &items, s);
    }
}
