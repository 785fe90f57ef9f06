//! Gadgets over small prime fields, recorded as complete constraint systems.
use h_gadgets::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::lookup::table::*;
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_gadgets::operator::rangeproof::RangeProof;

/// result of a gadget: linear combinations of its outputs, the values it reports, operand wires
#[derive(Default)]
struct Res { outs: Vec<Value>, vals: Vec<Value>, ins: Vec<Value>, fix: Vec<usize> }
fn bit(b: Option<bool>) -> Value { b.map(|x| json!(x as u8)).unwrap_or(json!(-1)) }
fn blc<F: PrimeField>(cs: &Rec<F>, b: &Boolean) -> Value { jlc(&cs.lc(&b.lc::<F>(Rec::<F>::one(), F::one()))) }
fn vlc<F: PrimeField>(cs: &Rec<F>, v: Variable) -> Value { json!([[cs.wire(v), 1]]) }

fn run<F: PrimeField>(cs: &mut Rec<F>, e: &Value) -> Result<Res, SynthesisError> {
    let known = !cs.setup;
    let f = |v: i64| fi::<F>(v);
    let op = e.st("op");
    let mut r = Res::default();
    let mut bits = vec![];
    for (n, v) in e.ints("v").iter().enumerate() {
        let val = if known { Some(*v == 1) } else { None };
        bits.push(if e.ints("inp")[n] == 1 { AllocatedBit::alloc_input(cs.ns(|| format!("b{}", n)), val)? } else { AllocatedBit::alloc(cs.ns(|| format!("b{}", n)), val)? });
    }
    r.ins = bits.iter().map(|b| json!(cs.wire(b.get_variable()))).collect();
    let k: Vec<Boolean> = e.arr("k").iter().map(|d| operand(d, &bits)).collect();
    let put = |cs: &Rec<F>, r: &mut Res, b: &Boolean| { r.outs.push(blc(cs, b)); r.vals.push(bit(b.get_value())); };
    let frv = |r: &mut Res, cs: &Rec<F>, a: AllocatedFr<F>| { r.outs.push(vlc(cs, a.get_variable())); r.vals.push(a.get_value().map(|x| json!(num(&x))).unwrap_or(json!(-1))); };
    let raw = |i: usize| match k[i] { Boolean::Is(b) => b, _ => unreachable!() };
    let tab = |key: &str| -> Vec<F> { e.ints(key).into_iter().map(f).collect() };
    match op {
        "alloc" => { for b in &bits { put(cs, &mut r, &Boolean::from(*b)); } }
        "cond" => {
            let v = e.ints("x")[0];
            let a = AllocatedBit::alloc_conditionally(cs.ns(|| "c"), if known { Some(v == 1) } else { None }, &raw(0))?;
            put(cs, &mut r, &Boolean::from(a));
        }
        "axor" => { let b = AllocatedBit::xor(cs.ns(|| "o"), &raw(0), &raw(1))?; put(cs, &mut r, &b.into()); }
        "aand" => { let b = AllocatedBit::and(cs.ns(|| "o"), &raw(0), &raw(1))?; put(cs, &mut r, &b.into()); }
        "aandnot" => { let b = AllocatedBit::and_not(cs.ns(|| "o"), &raw(0), &raw(1))?; put(cs, &mut r, &b.into()); }
        "anor" => { let b = AllocatedBit::nor(cs.ns(|| "o"), &raw(0), &raw(1))?; put(cs, &mut r, &b.into()); }
        "not" => put(cs, &mut r, &k[0].not()),
        "id" => put(cs, &mut r, &k[0]),
        "xor" => { let b = Boolean::xor(cs.ns(|| "o"), &k[0], &k[1])?; put(cs, &mut r, &b); }
        "and" => { let b = Boolean::and(cs.ns(|| "o"), &k[0], &k[1])?; put(cs, &mut r, &b); }
        "eq" => Boolean::enforce_equal(cs.ns(|| "o"), &k[0], &k[1])?,
        "ch" => { let b = Boolean::sha256_ch(cs.ns(|| "o"), &k[0], &k[1], &k[2])?; put(cs, &mut r, &b); }
        "maj" => { let b = Boolean::sha256_maj(cs.ns(|| "o"), &k[0], &k[1], &k[2])?; put(cs, &mut r, &b); }
        "lookup1_x" => { let a = lookup1_x(cs.ns(|| "o"), &k[0], &tab("tx"))?; frv(&mut r, cs, a); }
        "lookup2_x" => { let a = lookup2_x(cs.ns(|| "o"), &k, &tab("tx"))?; frv(&mut r, cs, a); }
        "lookup3_x" => { let a = lookup3_x(cs.ns(|| "o"), &k, &tab("tx"))?; frv(&mut r, cs, a); }
        "lookup2_xy" | "lookup3_xy" => {
            let t: Vec<(F, F)> = tab("tx").into_iter().zip(tab("ty")).collect();
            let (x, y) = if op == "lookup2_xy" { lookup2_xy(cs.ns(|| "o"), &k, &t)? } else { lookup3_xy(cs.ns(|| "o"), &k, &t)? };
            frv(&mut r, cs, x);
            frv(&mut r, cs, y);
        }
        "range" => {
            let (a, b, n) = (f(e.ints("x")[0]), f(e.ints("x")[1]), e.us("n") as u64);
            RangeProof { lhs: if known { Some(a) } else { None }, rhs: if known { Some(b) } else { None }, n }.generate_constraints(cs)?;
            r.fix = vec![cs.named("A", 0), cs.named("B", 1)];
            r.ins = cs.ins[1..].iter().map(|w| json!(w)).collect();
        }
        "fr" => {
            // an allocated element, made public and shown to be nonzero
            let v = f(e.ints("x")[0]);
            let a = AllocatedFr::alloc(cs.ns(|| "a"), || Ok(v))?;
            frv(&mut r, cs, a.clone());
            if e.ints("x")[1] == 1 { a.inputize(cs.ns(|| "i"))?; }
            if e.ints("x")[2] == 1 { a.isnonzero(cs.ns(|| "n"))?; }
            let b = AllocatedFr::alloc_input(cs.ns(|| "b"), || Ok(v))?;
            frv(&mut r, cs, b);
        }
        "multieq" => {
            let mut m = MultiEq::new(cs.ns(|| "m"));
            for q in e.arr("eqs") {
                let side = |key: &str| { let mut l = LinearCombination::<F>::zero(); for t in q.arr(key) { l = l + (f(t[1].as_i64().unwrap()), bits[t[0].as_u64().unwrap() as usize].get_variable()); } l };
                m.enforce_equal(q.us("n"), &side("l"), &side("r"));
            }
        }
        "u64" => {
            let x = e.ints("x").iter().enumerate().fold(0u64, |a, (i, h)| a | ((*h as u64) << (16 * i)));
            for b in u64_into_boolean_vec_le(cs.ns(|| "u"), if known { Some(x) } else { None })? { put(cs, &mut r, &b); }
        }
        "field" => { for b in field_into_boolean_vec_le(cs.ns(|| "u"), if known { Some(f(e.ints("x")[0])) } else { None })? { put(cs, &mut r, &b); } }
        o => unreachable!("{}", o),
    }
    Ok(r)
}
fn one<F: PrimeField>(e: &Value) -> Value {
    let mut cs = Rec::<F>::new(false);
    let mut st = Rec::<F>::new(true);
    let got = guarded(|| run(&mut cs, e));
    let shape = guarded(|| run(&mut st, e));
    let mut o = json!({"rc": "ok", "shape": 0, "n": 0, "v": [], "sys": [], "outs": [], "vals": [], "ins": [], "fix": [], "npub": 0, "d": 0});
    o["q"] = e.clone();
    match got {
        Err(_) => { o["rc"] = json!("panic"); return o; }
        Ok(Err(x)) => o["rc"] = json!(jerr(x)),
        Ok(Ok(r)) => { o["outs"] = json!(r.outs); o["vals"] = json!(r.vals); o["ins"] = json!(r.ins); o["fix"] = json!(r.fix); }
    }
    // circuits are also synthesised without witnesses; both must be the same system
    let ok = matches!(&shape, Ok(Ok(_)));
    o["shape"] = json!((if o["rc"] == "ok" { ok && cs.same_shape(&st) } else { shape.is_ok() }) as u8);
    o["n"] = json!(cs.vals.len());
    o["v"] = jvals(&cs);
    o["sys"] = json!(jsys(&cs));
    o["pubw"] = json!(cs.ins[1..].to_vec());
    o["npub"] = json!(cs.ins.len() - 1);
    o["d"] = json!(cs.depth);
    o
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for e in read_lines(&a[1]) {
        let r = match e.us("p") {
            5 => one::<Fp<5>>(&e), 7 => one::<Fp<7>>(&e), 13 => one::<Fp<13>>(&e), 17 => one::<Fp<17>>(&e), 97 => one::<Fp<97>>(&e),
            257 => one::<Fp<257>>(&e), 12289 => one::<Fp<12289>>(&e), p => panic!("{}", p),
        };
        out.put(&r);
    }
}
