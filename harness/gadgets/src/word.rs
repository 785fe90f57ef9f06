//! UInt32 programs, SHA-256 and BLAKE2s over fields of 64 and 255 bits.
use h_gadgets::det::*;
use h_gadgets::*;
use std::collections::HashSet;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::hashes::{blake2s::blake2s, sha256::{sha256, sha256_block_no_padding}};
use zkp_gadgets::operator::multieq::MultiEq;
type Fr = ark_bls12_381::Fr;

/// operands given as bits: kind 0 = constant, 1 = allocated, 2 = negated; val = value of the operand
fn mixed<F: PrimeField>(cs: &mut Rec<F>, kinds: &[i64], vals: &[i64]) -> Result<Vec<Boolean>, SynthesisError> {
    let known = !cs.setup;
    let mut v = vec![];
    for (i, (k, b)) in kinds.iter().zip(vals).enumerate() {
        let b = *b == 1;
        v.push(match k {
            0 => Boolean::constant(b),
            1 => AllocatedBit::alloc(cs.ns(|| format!("in{}", i)), if known { Some(b) } else { None })?.into(),
            _ => Boolean::from(AllocatedBit::alloc(cs.ns(|| format!("in{}", i)), if known { Some(!b) } else { None })?).not(),
        });
    }
    Ok(v)
}
fn word(v: &Value, k: &str) -> u32 { let h = v.ints(k); (h[0] as u32) | (h[1] as u32) << 16 }
fn jbits(b: &[Boolean]) -> Value { json!(b.iter().map(|x| x.get_value().map(|v| v as i64).unwrap_or(-1)).collect::<Vec<_>>()) }
/// 0 = constant, 1 = view of a wire
fn jkinds(b: &[Boolean]) -> Value { json!(b.iter().map(|x| !x.is_constant() as u8).collect::<Vec<_>>()) }
/// the value a word carries, as addition sees it
fn carried<F: PrimeField>(w: &UInt32, cs: &Rec<F>) -> Value {
    let mut t = Rec::<F>::new(false);
    t.ins = cs.ins.clone();
    t.auxs = cs.auxs.clone();
    t.vals = cs.vals.clone();
    let mut m = MultiEq::new(&mut t);
    match UInt32::addmany(m.ns(|| "x"), &[w.clone(), UInt32::constant(0)]) { Ok(r) => jbits(&r.into_bits()), Err(_) => json!([]) }
}
fn program<F: PrimeField>(cs: &mut Rec<F>, q: &Value, outs: &mut Vec<Value>, inputs: &mut HashSet<usize>) -> Result<Vec<Boolean>, SynthesisError> {
    let known = !cs.setup;
    let mut pool: Vec<UInt32> = vec![];
    let mut nadd = 0;
    let mut all = vec![];
    for (n, e) in q.arr("ops").iter().enumerate() {
        let a = |i: usize| pool[e.ints("a")[i] as usize].clone();
        let by = e.us("by");
        let before = cs.vals.len();
        let r = match e.st("op") {
            "alloc" => UInt32::alloc(cs.ns(|| format!("w{}", n)), if known { Some(word(e, "w")) } else { None })?,
            "const" => UInt32::constant(word(e, "w")),
            "bits" => UInt32::from_bits(&mixed(cs, &e.ints("k"), &e.ints("v"))?),
            "bitsbe" => UInt32::from_bits_be(&mixed(cs, &e.ints("k"), &e.ints("v"))?),
            "le" => UInt32::from_bits(&a(0).into_bits()),
            "be" => UInt32::from_bits_be(&a(0).into_bits_be()),
            "rev" => UInt32::from_bits(&a(0).into_bits_be()),
            "rotr" => a(0).rotr(by),
            "shr" => a(0).shr(by),
            "xor" => a(0).xor(cs.ns(|| format!("x{}", n)), &a(1))?,
            "ch" => UInt32::sha256_ch(cs.ns(|| format!("c{}", n)), &a(0), &a(1), &a(2))?,
            "maj" => UInt32::sha256_maj(cs.ns(|| format!("m{}", n)), &a(0), &a(1), &a(2))?,
            // several additions share one batch of equalities
            "add" => {
                let mut m = MultiEq::new(&mut *cs);
                let mut r = None;
                for (gi, g) in e.arr("g").iter().enumerate() {
                    let w: Vec<UInt32> = g.as_array().unwrap().iter().map(|i| pool[i.as_u64().unwrap() as usize].clone()).collect();
                    nadd += 1;
                    r = Some(UInt32::addmany(m.ns(|| format!("s{}", nadd)), &w)?);
                    if gi + 1 < e.arr("g").len() { all.push(r.clone().unwrap()); }
                }
                r.unwrap()
            }
            o => unreachable!("{}", o),
        };
        if ["alloc", "bits", "bitsbe"].contains(&e.st("op")) { inputs.extend(before..cs.vals.len()); }
        if known {
            let b = r.clone().into_bits();
            outs.push(json!({"bits": jbits(&b), "wires": jkinds(&b), "carried": carried(&r, cs)}));
        }
        pool.push(r);
    }
    Ok(pool.into_iter().chain(all).flat_map(|w| w.into_bits()).collect())
}
fn bytes_bits(q: &Value) -> (Vec<i64>, Vec<i64>) { (q.ints("k"), q.ints("v")) }
fn run<F: PrimeField>(cs: &mut Rec<F>, q: &Value, outs: &mut Vec<Value>, inputs: &mut HashSet<usize>) -> Result<Vec<Boolean>, SynthesisError> {
    match q.st("op") {
        "program" => {
            let r = program(cs, q, outs, inputs)?;
            Ok(r)
        }
        o => {
            let (k, v) = bytes_bits(q);
            let ib = mixed(cs, &k, &v)?;
            inputs.extend(1..cs.vals.len());
            match o {
                "sha256" => sha256(cs.ns(|| "h"), &ib),
                "shablock" => sha256_block_no_padding(cs.ns(|| "h"), &ib),
                "blake2s" => { let p: Vec<u8> = q.ints("pers").iter().map(|x| *x as u8).collect(); blake2s(cs.ns(|| "h"), &ib, &p) }
                o => unreachable!("{}", o),
            }
        }
    }
}
fn one<F: PrimeField>(q: &Value) -> Value {
    let mut cs = Rec::<F>::new(false);
    let (mut outs, mut inputs) = (vec![], HashSet::new());
    let got = guarded(|| run(&mut cs, q, &mut outs, &mut inputs));
    let mut st = Rec::<F>::new(true);
    let shape = guarded(|| run(&mut st, q, &mut vec![], &mut HashSet::new()));
    let mut o = json!({"rc": "ok", "outs": outs, "res": [], "shape": 0, "sat": 0, "v": [], "sys": [], "rank": [], "rule": [], "brule": [], "val": [], "brank": [], "packs": [], "alt": [], "undet": 0, "bits": F::size_in_bits()});
    o["q"] = q.clone();
    match got { Err(_) => { o["rc"] = json!("panic"); return o; } Ok(Err(x)) => { o["rc"] = json!(jerr(x)); return o; } Ok(Ok(b)) => o["res"] = jbits(&b) }
    o["shape"] = json!((matches!(shape, Ok(Ok(_))) && cs.same_shape(&st)) as u8);
    o["sat"] = json!(satisfied(&cs) as u8);
    let d = eliminate(&cs, &inputs);
    o["undet"] = json!(d.free.len());
    if !d.free.is_empty() { if let Some(ch) = second_pack(&cs, &d).or_else(|| second(&cs, &d.free, 300)) { o["alt"] = json!(ch); } }
    if q.us("full") == 1 {
        o["v"] = json!(cs.vals.iter().map(|v| { let x = digits(v); x.iter().map(|(g, k)| if *k < 30 { g << k } else { 1 << 30 }).sum::<i64>() }).collect::<Vec<_>>());
        o["sys"] = jbigsys(&cs);
        o["rank"] = json!(d.rank);
        o["rule"] = json!(d.rule);
        o["brule"] = json!(d.brule);
        o["brank"] = json!(d.brank);
        o["val"] = json!(d.val);
        o["packs"] = json!(d.packs);
    }
    o["n"] = json!(cs.vals.len());
    o["nc"] = json!(cs.cons.len());
    o
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for q in read_lines(&a[1]) {
        out.put(&match q.st("f") { "gold" => one::<Fp<GOLD>>(&q), "fr" => one::<Fr>(&q), o => panic!("{}", o) });
    }
}
