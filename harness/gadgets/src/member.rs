//! Membership circuits: a small algebraic hash, solved completely, and the real hashes.
use ark_ff::ToBytes;
use h_gadgets::det::*;
use h_gadgets::*;
use std::collections::HashSet;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{mimc, poseidon, rescue, sha256};
use zkp_gadgets::merkletree::cbmt::*;
use zkp_gadgets::merkletree::cbmt_constraints::MerkleProofGadget;

// ---- the small hash of SetMember.tla
thread_local! { static W: std::cell::Cell<usize> = std::cell::Cell::new(1); }
#[derive(Clone)]
struct ToyOut<F> { vals: Vec<Option<F>>, vars: Vec<Variable> }
impl<F: PrimeField> AbstractHashOutput<F> for ToyOut<F> {
    fn get_variables(&self) -> Vec<Variable> { self.vars.clone() }
    fn get_variable_values(&self) -> Vec<Option<F>> { self.vals.clone() }
}
impl<F: PrimeField> ToyOut<F> {
    fn alloc(cs: &mut Rec<F>, name: &str, v: &[F], public: bool) -> Self {
        let vars = v.iter().enumerate().map(|(i, x)| {
            let n = format!("{}{}", name, i);
            if public { cs.alloc_input(|| n, || Ok(*x)).unwrap() } else { cs.alloc(|| n, || Ok(*x)).unwrap() }
        }).collect();
        ToyOut { vals: v.iter().map(|x| if cs.setup { None } else { Some(*x) }).collect(), vars }
    }
}
struct Toy<F>(std::marker::PhantomData<F>);
impl<F: PrimeField> AbstractHash<F> for Toy<F> {
    type Output = ToyOut<F>;
    fn hash_enforce<CS: ConstraintSystem<F>>(mut cs: CS, params: &[&ToyOut<F>]) -> Result<ToyOut<F>, SynthesisError> {
        let vars: Vec<Variable> = params.iter().flat_map(|p| p.vars.clone()).collect();
        let vals: Vec<Option<F>> = params.iter().flat_map(|p| p.vals.clone()).collect();
        let mut o = ToyOut { vals: vec![], vars: vec![] };
        for j in 1..=W.with(|w| w.get()) {
            let part = |a: usize, d: i64| {
                let mut l = LinearCombination::<F>::zero() + (fi::<F>(d), CS::one());
                let mut v = Some(fi::<F>(d));
                for (i, (x, y)) in vars.iter().zip(&vals).enumerate() {
                    let c = fi::<F>((a * (i + 1) + j) as i64);
                    l = l + (c, *x);
                    v = match (v, y) { (Some(v), Some(y)) => Some(v + c * y), _ => None };
                }
                (l, v)
            };
            let ((a, x), (b, y)) = (part(1, 1), part(2, 2));
            let v = match (x, y) { (Some(x), Some(y)) => Some(x * y), _ => None };
            let out = cs.alloc(|| format!("h{}", j), || v.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| format!("h{}", j), |_| a.clone(), |_| b.clone(), |l| l + out);
            o.vals.push(v);
            o.vars.push(out);
        }
        Ok(o)
    }
}
fn member<F: PrimeField, H: AbstractHash<F>>(cs: &mut Rec<F>, q: &Value, lemmas: Vec<H::Output>, root: H::Output, leaf: H::Output) -> Result<(), SynthesisError> {
    if q.us("it") == 0 { MerkleProofGadget::<u32, F, H>::new(q.us("index") as u32, lemmas).set_membership(cs.ns(|| "m"), root, leaf) }
    else { MerkleProofGadget::<usize, F, H>::new(q.us("index"), lemmas).set_membership(cs.ns(|| "m"), root, leaf) }
}
fn toy<F: PrimeField>(q: &Value) -> Value {
    W.with(|w| w.set(q.us("w")));
    let f = |v: &Value| -> Vec<F> { v.as_array().unwrap().iter().map(|x| fi(x.as_i64().unwrap())).collect() };
    let mut o = json!({"rc": "ok", "shape": 0, "n": 0, "v": [], "sys": [], "leaf": [], "root": [], "lemmas": [], "d": 0});
    o["q"] = q.clone();
    let run = |cs: &mut Rec<F>, o: &mut Value| {
        let root = ToyOut::alloc(cs, "root", &f(&q["root"]), q.us("pub") == 1);
        let leaf = ToyOut::alloc(cs, "leaf", &f(&q["leaf"]), false);
        let lm: Vec<ToyOut<F>> = q.arr("lemmas").iter().enumerate().map(|(i, x)| ToyOut::alloc(cs, &format!("lemma{}_", i), &f(x), false)).collect();
        let ws = |cs: &Rec<F>, t: &ToyOut<F>| json!(t.vars.iter().map(|v| cs.wire(*v)).collect::<Vec<_>>());
        o["root"] = ws(cs, &root);
        o["leaf"] = ws(cs, &leaf);
        o["lemmas"] = Value::Array(lm.iter().map(|t| ws(cs, t)).collect());
        member::<F, Toy<F>>(cs, q, lm, root, leaf)
    };
    let (mut cs, mut st) = (Rec::<F>::new(false), Rec::<F>::new(true));
    match guarded(|| run(&mut cs, &mut o)) { Err(_) => o["rc"] = json!("panic"), Ok(Err(x)) => o["rc"] = json!(jerr(x)), Ok(Ok(_)) => {} }
    let mut dump = json!({});
    let ok = matches!(guarded(|| run(&mut st, &mut dump)), Ok(Ok(_)));
    o["shape"] = json!((ok && cs.same_shape(&st)) as u8);
    o["n"] = json!(cs.vals.len());
    o["v"] = jvals(&cs);
    o["sys"] = json!(jsys(&cs));
    o["d"] = json!(cs.depth);
    o
}

// ---- real hashes: terms of the specification are interpreted in bytes or field elements
type G = Fp<GOLD>;
struct Sha;
impl Merge for Sha { type Item = Vec<u8>; fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> { use sha2::Digest; let mut h = sha2::Sha256::new(); h.update(l); h.update(r); h.finalize().to_vec() } }
macro_rules! merge { ($n:ident, $m:ident) => {
    struct $n;
    impl Merge for $n { type Item = G; fn merge(l: &G, r: &G) -> G { let mut b = vec![]; l.write(&mut b).unwrap(); r.write(&mut b).unwrap(); $m::hash(&b) } }
} }
merge!(Mimc, mimc);
merge!(Poseidon, poseidon);
merge!(Rescue, rescue);
fn split(t: &str) -> Option<(&str, &str)> {
    let b = t.as_bytes();
    if b[0] != b'(' { return None; }
    let mut d = 0;
    for (i, c) in b.iter().enumerate() { match c { b'(' => d += 1, b')' => d -= 1, b',' if d == 1 => return Some((&t[1..i], &t[i + 1..t.len() - 1])), _ => {} } }
    None
}
fn value<M: Merge>(t: &str, atom: &dyn Fn(&str) -> M::Item) -> M::Item { match split(t) { Some((l, r)) => M::merge(&value::<M>(l, atom), &value::<M>(r, atom)), None => atom(t) } }
/// keeps the statement wires and tries to give the other wires values that satisfy everything
fn uses<F: PrimeField>(cs: &Rec<F>) -> Vec<Vec<usize>> {
    let mut at: Vec<Vec<usize>> = vec![vec![]; cs.vals.len()];
    for (i, c) in cs.cons.iter().enumerate() { for l in c { for (w, _) in l { at[*w].push(i); } } }
    at
}
fn forge<F: PrimeField>(cs: &Rec<F>, keep: &HashSet<usize>) -> bool {
    let todo = (0..cs.cons.len()).filter(|i| !holds(&cs.cons[*i], &cs.vals)).collect();
    forge_from(cs, keep, &uses(cs), cs.vals.clone(), todo)
}
fn forge_from<F: PrimeField>(cs: &Rec<F>, keep: &HashSet<usize>, at: &[Vec<usize>], mut v: Vec<F>, mut todo: Vec<usize>) -> bool {
    let mut set = keep.clone();
    set.insert(0);
    while let Some(i) = todo.pop() {
        let c = &cs.cons[i];
        if holds(c, &v) { continue; }
        let has = |l: &[(usize, F)], w: usize| l.iter().find(|x| x.0 == w).map(|x| x.1);
        let mut ws: Vec<usize> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| !set.contains(w)).collect();
        ws.sort();
        let (a, b, z) = (ev(&c[0], &v), ev(&c[1], &v), ev(&c[2], &v));
        let fix = ws.iter().rev().find_map(|w| match (has(&c[0], *w), has(&c[1], *w), has(&c[2], *w)) {
            (None, None, Some(k)) => Some((*w, v[*w] + (a * b - z) / k)),
            (Some(k), None, None) if !b.is_zero() => Some((*w, v[*w] + (z / b - a) / k)),
            (None, Some(k), None) if !a.is_zero() => Some((*w, v[*w] + (z / a - b) / k)),
            _ => None,
        });
        match fix { None => return false, Some((w, x)) => { v[w] = x; set.insert(w); todo.extend(at[w].iter().cloned()); } }
    }
    cs.cons.iter().all(|c| holds(c, &v))
}
fn real<M: Merge, H: AbstractHash<G>>(q: &Value, atom: &dyn Fn(&str, usize) -> M::Item, alloc: &dyn Fn(&mut Rec<G>, &str, M::Item, bool) -> H::Output) -> Value
where M::Item: Ord + Default + Clone {
    let len = q.us("len");
    let val = |t: &str, n: usize| value::<M>(t, &|x| atom(x, if x == "x" { n } else { len }));
    let depth = q.arr("lemmas").len();
    let leaf = val(q.st("leaf"), len);
    let root = val(q.st("root"), if depth == 0 { len } else { 32 });
    let lm: Vec<M::Item> = q.arr("lemmas").iter().map(|x| val(x.as_str().unwrap(), 32)).collect();
    let mut o = json!({"rc": "ok", "native": 0, "sat": 0, "forged": 0, "loose": 0, "nc": 0});
    o["q"] = q.clone();
    o["native"] = json!(MerkleProof::<M::Item, M>::new(q.us("index") as u32, lm.clone()).verify(&root, &leaf) as u8);
    let mut cs = Rec::<G>::new(false);
    let mut keep = HashSet::new();
    let root_wire = std::cell::Cell::new(0);
    let r = guarded(|| {
        let root = alloc(&mut cs, "root", root.clone(), true);
        root_wire.set(cs.wire(root.get_variables()[0]));
        let leaf = alloc(&mut cs, "leaf", leaf.clone(), false);
        let lm: Vec<H::Output> = lm.iter().map(|x| alloc(&mut cs, "lemma", x.clone(), false)).collect();
        keep = (0..cs.vals.len()).collect();
        member::<G, H>(&mut cs, q, lm, root, leaf)
    });
    match r { Err(_) => { o["rc"] = json!("panic"); return o; } Ok(Err(x)) => { o["rc"] = json!(jerr(x)); return o; } Ok(Ok(_)) => {} }
    o["nc"] = json!(cs.cons.len());
    let sat = satisfied(&cs);
    o["sat"] = json!(sat as u8);
    if !sat { o["forged"] = json!(forge(&cs, &keep) as u8); }
    // every single element of the statement: changed alone, the rest of the assignment as it was; every bit
    // of a digest of bits also with the private wires rearranged
    if sat && q.st("alter") == "none" {
        let at = uses(&cs);
        let bits = q.st("h") == "sha256";
        let mut n = 0;
        let mut all: Vec<usize> = keep.iter().cloned().filter(|w| *w > 0 && *w < cs.vals.len()).collect();
        all.sort();
        // (the field hashes bind nothing but their root, which is what "forged" reports)
        if !bits { all = vec![root_wire.get()]; }
        for w in all {
            let mut v = cs.vals.clone();
            v[w] = if bits { G::from(1u64) - v[w] } else { v[w] + G::from(1u64) };
            let todo: Vec<usize> = at[w].iter().cloned().filter(|i| !holds(&cs.cons[*i], &v)).collect();
            if todo.is_empty() || (bits && forge_from(&cs, &keep, &at, v, todo)) { n += 1; }
        }
        o["loose"] = json!(n);
    }
    o
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    let num_of = |t: &str| -> u64 { if t == "x" { 77777 } else { t[1..].parse::<u64>().unwrap() * 1000003 } };
    let fa = move |t: &str, _: usize| G::from(num_of(t));
    let ba = move |t: &str, n: usize| -> Vec<u8> { (0..n).map(|i| (num_of(t) + 31 * i as u64 % 251) as u8).collect() };
    for q in read_lines(&a[1]) {
        let r = if q.st("ev") == "toy" {
            match q.us("p") { 3 => toy::<Fp<3>>(&q), 5 => toy::<Fp<5>>(&q), 11 => toy::<Fp<11>>(&q), p => panic!("{}", p) }
        } else {
            match q.st("h") {
                "mimc" => real::<Mimc, mimc::AbstractHashMimc<G>>(&q, &fa, &|cs, n, v, p| if p { mimc::AbstractHashMimcOutput::alloc_input(cs.ns(|| n), Some(v)).unwrap() } else { mimc::AbstractHashMimcOutput::alloc(cs.ns(|| n), Some(v)).unwrap() }),
                "poseidon" => real::<Poseidon, poseidon::AbstractHashPoseidon<G>>(&q, &fa, &|cs, n, v, _| poseidon::AbstractHashPoseidonOutput::alloc(cs.ns(|| n), Some(v)).unwrap()),
                "rescue" => real::<Rescue, rescue::AbstractHashRescue<G>>(&q, &fa, &|cs, n, v, _| rescue::AbstractHashRescueOutput::alloc(cs.ns(|| n), Some(v)).unwrap()),
                _ => real::<Sha, sha256::AbstractHashSha256<G>>(&q, &ba, &|cs, n, v, p| if p { sha256::AbstractHashSha256Output::alloc_input(cs.ns(|| n), v).unwrap() } else { sha256::AbstractHashSha256Output::alloc(cs.ns(|| n), v).unwrap() }),
            }
        };
        out.put(&r);
    }
}
