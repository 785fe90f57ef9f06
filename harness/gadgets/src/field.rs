//! MiMC, Poseidon and Rescue: native hashes and recorded circuits.
use ark_ff::{BigInteger, ToBytes};
use h_gadgets::det::*;
use h_gadgets::*;
use std::collections::HashSet;
use zkp_gadgets::hashes::{mimc, poseidon, rescue};
type Fr = ark_bls12_381::Fr;

fn native<F: PrimeField>(h: &str, b: &[u8]) -> F { match h { "mimc" => mimc::hash(b), "poseidon" => poseidon::hash(b), "rescue" => rescue::hash(b), o => unreachable!("{}", o) } }
/// witness absent: only MiMC can be synthesised without its input
fn circuit<F: PrimeField>(cs: &mut Rec<F>, h: &str, b: Option<&[u8]>, len: usize) -> Result<Option<F>, SynthesisError> {
    let zero = vec![0u8; len];
    match h {
        "mimc" => mimc::mimc(cs.ns(|| "h"), b),
        "poseidon" => poseidon::poseidon(cs.ns(|| "h"), b.unwrap_or(&zero)).map(Some),
        "rescue" => rescue::rescue(cs.ns(|| "h"), b.unwrap_or(&zero)).map(Some),
        o => unreachable!("{}", o),
    }
}
fn bytes(q: &Value) -> Vec<u8> { q.ints("b").iter().map(|x| *x as u8).collect() }
fn width<F: PrimeField>() -> usize { F::BigInt::NUM_LIMBS * 8 }
fn arr<F: PrimeField>(a: &[F]) -> Value { json!(a.iter().map(num).collect::<Vec<_>>()) }
fn consts<F: PrimeField>(p: u64) -> Value {
    let (m, s, r) = (mimc::constants::<F>(), poseidon::constants::<F>(), rescue::constants::<F>());
    let rows = |x: &[[F; 3]]| Value::Array(x.iter().map(|y| arr(y)).collect());
    json!({"p": p, "mimc": arr(&m), "ark": rows(&s.ark), "pmds": rows(&s.mds), "rc": rows(&r.constants), "rmds": rows(&r.mds)})
}
/// over a large field, where values name their wires: the wires of the preimage and of the image
struct Roles { given: Vec<usize>, image: Vec<usize>, alt: Vec<usize>, open: usize }
fn roles(h: &str, seed: u8) -> Option<Roles> {
    let w = width::<Fr>();
    let mut rng = mock::rng(seed as u64);
    let mut b = vec![];
    let mut last = Fr::from(0u64);
    for _ in 0..2 { last = { use ark_ff::UniformRand; Fr::rand(&mut rng) }; last.write(&mut b).unwrap(); }
    let mut cs = Rec::<Fr>::new(false);
    circuit(&mut cs, h, Some(&b), b.len()).ok()?;
    let (xl, image) = (native::<Fr>(h, &b[..w]), native::<Fr>(h, &b));
    let find = |v: Fr| cs.vals.iter().position(|x| *x == v);
    let given = vec![find(xl)?, find(last)?];
    let outs: Vec<usize> = (0..cs.vals.len()).filter(|i| cs.vals[*i] == image).collect();
    let d = eliminate(&cs, &given.iter().cloned().collect());
    let alt = if d.free.is_empty() { None } else { second_with(&cs, &d.free, 400, &|v| outs.iter().any(|o| v[*o] != image)) };
    Some(Roles { given, image: outs, alt: alt.unwrap_or_default(), open: d.free.len() })
}
fn one<F: PrimeField>(q: &Value, r: &Option<Roles>) -> Value {
    let h = q.st("h");
    let b = bytes(q);
    let mut o = json!({"rc": "ok", "native": -1, "ret": -1, "shape": 0, "sat": 0, "outs": [], "pub": [], "alt": [], "sys": [], "v": [], "span": [], "given": [], "n": 0, "open": 0});
    o["q"] = q.clone();
    match guarded(|| native::<F>(h, &b)) { Ok(x) => o["native"] = json!(num(&x)), Err(_) => { o["rc"] = json!("native-panic"); return o; } }
    let mut cs = Rec::<F>::new(false);
    match guarded(|| circuit(&mut cs, h, Some(&b), b.len())) {
        Ok(Ok(Some(x))) => o["ret"] = json!(num(&x)),
        Ok(Ok(None)) => {}
        Ok(Err(e)) => { o["rc"] = json!(jerr(e)); return o; }
        Err(_) => { o["rc"] = json!("panic"); return o; }
    }
    let mut st = Rec::<F>::new(true);
    let ok = matches!(guarded(|| circuit(&mut st, h, None, b.len())), Ok(Ok(_)));
    o["shape"] = json!((ok && cs.same_shape(&st)) as u8);
    o["sat"] = json!(satisfied(&cs) as u8);
    o["pub"] = json!(cs.ins[1..].iter().map(|w| num(&cs.vals[*w])).collect::<Vec<_>>());
    let r = match r { Some(r) => r, None => return o };
    // the roles found over the large field carry over: the same wire must hold the image here
    o["outs"] = json!(r.image.iter().filter(|w| num(&cs.vals[**w]) == o["native"].as_i64().unwrap()).collect::<Vec<_>>());
    o["given"] = json!(r.given);
    o["alt"] = json!(r.alt);
    o["open"] = json!(r.open);
    o["n"] = json!(cs.vals.len());
    if q.us("full") == 1 {
        let given: HashSet<usize> = r.given.iter().cloned().collect();
        let d = eliminate(&cs, &given);
        if r.alt.is_empty() && !d.free.is_empty() { if let Some(c) = second_with(&cs, &d.free, 400, &|v| r.image.iter().any(|o| v[*o] != cs.vals[*o])) { o["alt"] = json!(c); } }
        let sys = jsys(&cs);
        let mut span = vec![[1usize, 0]; cs.vals.len()];
        for (i, c) in sys.iter().enumerate() { let w = c[0].as_u64().unwrap() as usize; if span[w][1] == 0 { span[w] = [i + 1, i + 1]; } else { span[w][1] = i + 1; } }
        o["span"] = json!(span[1..].to_vec());
        o["sys"] = Value::Array(sys);
        o["v"] = jvals(&cs);
    }
    o
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    let rl: std::collections::HashMap<&str, Option<Roles>> = ["mimc", "poseidon", "rescue"].iter().map(|h| (*h, guarded(|| roles(h, 7)).unwrap_or(None))).collect();
    out.put(&json!({"consts": [consts::<Fp<97>>(97), consts::<Fp<257>>(257), consts::<Fp<12289>>(12289), consts::<Fp<7>>(7)]}));
    for q in read_lines(&a[1]) {
        let r = &rl[q.st("h")];
        out.put(&match q.us("p") { 7 => one::<Fp<7>>(&q, r), 97 => one::<Fp<97>>(&q, r), 257 => one::<Fp<257>>(&q, r), 12289 => one::<Fp<12289>>(&q, r), o => panic!("{}", o) });
    }
}
