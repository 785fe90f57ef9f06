//! Complete binary Merkle trees over symbolic terms.
use mock::*;
use zkp_gadgets::merkletree::cbmt::*;
struct Sym;
impl Merge for Sym { type Item = String; fn merge(l: &String, r: &String) -> String { format!("({},{})", l, r) } }
type T = CBMT<String, Sym>;
type P = MerkleProof<String, Sym>;
fn strs(v: &Value, k: &str) -> Vec<String> { v.arr(k).iter().map(|x| x.as_str().unwrap().to_string()).collect() }
fn idx<I: TreeIndex>(x: I, f: impl Fn(I) -> u64) -> Value { json!({"s": f(x.sibling()), "p": f(x.parent()), "l": x.is_left() as u8, "z": x.is_root() as u8}) }
fn tree(q: &Value) -> Value {
    let leaves = strs(q, "leaves");
    let n = leaves.len() as u64;
    let t = T::build_merkle_tree(leaves.clone());
    let mut o = q.clone();
    o["root1"] = json!(T::build_merkle_root(&leaves));
    o["root2"] = json!(t.root());
    o["nodes"] = json!(t.nodes());
    let mut ps = vec![];
    let top = u32::max_value() as u64;
    let want: Vec<u64> = (0..n + 3).chain(vec![2 * n + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, top - n, top - n + 1, top - n + 2, top - 1, top]).filter(|x| *x <= top).collect();
    for i in want {
        let mut p = json!({"i": if i < (1 << 31) { i as i64 } else { -1 }, "got": "none", "index": 0, "lemmas": [], "root": "", "verify": 0, "direct": 0});
        match guarded(|| t.build_proof(&(i as u32))) {
            Err(_) => p["got"] = json!("panic"),
            Ok(None) => {}
            Ok(Some(x)) => {
                p["got"] = json!("some");
                p["index"] = json!(*x.index());
                p["lemmas"] = json!(x.lemmas());
                let leaf = leaves.get(i as usize).cloned().unwrap_or_default();
                p["root"] = json!(x.root(&leaf).unwrap_or("none".into()));
                p["verify"] = json!(x.verify(&t.root(), &leaf) as u8);
                p["direct"] = json!(T::build_merkle_proof(&leaves, &(i as u32)).map(|y| y.index() == x.index() && y.lemmas() == x.lemmas()).unwrap_or(false) as u8);
            }
        }
        ps.push(p);
    }
    o["proofs"] = json!(ps);
    o["res"] = json!("ok");
    o
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for q in read_lines(&a[1]) {
        let mut o = q.clone();
        match q.st("ev") {
            "tree" => match guarded(|| tree(&q)) { Ok(x) => o = x, Err(_) => { o["res"] = json!("panic"); } },
            "check" => {
                let cs: Vec<Value> = q.arr("cs").iter().map(|c| {
                    let p = P::new(c.us("index") as u32, strs(c, "lemmas"));
                    let got = match guarded(|| p.verify(&c.st("root").to_string(), &c.st("leaf").to_string())) { Ok(b) => format!("{}", b), Err(_) => "false".into() };
                    let mut c = c.clone();
                    c["got"] = json!(got);
                    c
                }).collect();
                o["cs"] = json!(cs);
            }
            _ => { o["xs"] = json!(q.ints("xs").iter().map(|x| json!({"x": x, "r": [idx(*x as u32, |y| y as u64), idx(*x as usize, |y| y as u64)]})).collect::<Vec<_>>()); }
        }
        out.put(&o);
    }
}
