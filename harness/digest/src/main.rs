//! h-digest INST TRACE: digests of constraint systems, layered circuits, parameters and encodings,
//! family by family (a base object and its neighbours).
use ark_serialize::*;
use mock::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
type F = Fp<GOLD>;
type E = Eng<GOLD>;
type A = G<GOLD, 1>;

fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut b = vec![]; t.serialize(&mut b).unwrap(); b }
fn again<T: CanonicalSerialize + CanonicalDeserialize>(t: &T) -> T { T::deserialize(&bytes(t)[..]).unwrap() }
fn hex(f: F) -> String { format!("{:x}", f.raw()) }

struct Rec<'a> { out: &'a mut Out, fam: usize }
impl<'a> Rec<'a> {
    fn family(&mut self) { self.fam += 1; }
    fn put(&mut self, what: &str, kind: &str, x: &Value, via: &str, r: Result<F, String>) {
        let (res, h, msg) = match r { Ok(f) => ("ok", hex(f), String::new()), Err(m) => ("panic", String::new(), m) };
        self.out.put(&json!({"fam": self.fam, "what": what, "kind": kind, "x": x, "via": via, "res": res, "h": h, "msg": msg}));
    }
}

/// replaces group elements by value wherever they occur (a parameter set shares some of them)
trait Elems: CanonicalSerialize + CanonicalDeserialize {
    fn each(&mut self, f: &mut dyn FnMut(&mut A));
    fn sizes(&self) -> Vec<usize>;
    fn digest(&self) -> F;
}
macro_rules! multi { ($k:expr, $f:expr) => {{ for g in $k.generators.iter_mut() { $f(g) } $f(&mut $k.h) }} }
macro_rules! elems { ($t:ty, $self:ident, $m:ident, [$($k:expr),*], [$($n:expr),*], $d:ident) => {
    impl Elems for $t {
        fn each(&mut $self, f: &mut dyn FnMut(&mut A)) { $( $m!($k, f); )* }
        fn sizes(&$self) -> Vec<usize> { vec![$($n),*] }
        fn digest(&$self) -> F { $self.$d() }
    }
} }
macro_rules! list { ($k:expr, $f:expr) => { for g in $k.iter_mut() { $f(g) } } }
type NP = zkp_spartan::data_structure::NizkParameters<E>;
type SP = zkp_spartan::data_structure::SnarkParameters<E>;
type EC = zkp_spartan::data_structure::EncodeCommit<E>;
type LP = zkp_libra::params::Parameters<E>;
type HP = zkp_hyrax::params::Parameters<E>;
elems!(NP, self, multi, [self.r1cs_satisfied_params.pc_params.gen_n, self.r1cs_satisfied_params.pc_params.gen_1, self.r1cs_satisfied_params.sc_params.gen_1,
    self.r1cs_satisfied_params.sc_params.gen_3, self.r1cs_satisfied_params.sc_params.gen_4], [self.r1cs_satisfied_params.n, self.r1cs_satisfied_params.pc_params.n], param_to_hash);
elems!(SP, self, multi, [self.r1cs_satisfied_params.pc_params.gen_n, self.r1cs_satisfied_params.pc_params.gen_1, self.r1cs_satisfied_params.sc_params.gen_1,
    self.r1cs_satisfied_params.sc_params.gen_3, self.r1cs_satisfied_params.sc_params.gen_4,
    self.r1cs_eval_params.ops_params.gen_n, self.r1cs_eval_params.ops_params.gen_1, self.r1cs_eval_params.mem_params.gen_n, self.r1cs_eval_params.mem_params.gen_1,
    self.r1cs_eval_params.derefs_params.gen_n, self.r1cs_eval_params.derefs_params.gen_1],
    [self.r1cs_satisfied_params.n, self.r1cs_satisfied_params.pc_params.n, self.r1cs_eval_params.ops_params.n, self.r1cs_eval_params.mem_params.n, self.r1cs_eval_params.derefs_params.n], param_to_hash);
elems!(EC, self, list, [self.ops_commit, self.mem_commit], [self.n, self.m, self.ops_commit.len(), self.mem_commit.len()], encode_to_hash);
elems!(LP, self, multi, [self.pc_params.gen_n, self.pc_params.gen_1, self.sc_params.gen_1, self.sc_params.gen_3, self.sc_params.gen_4], [self.pc_params.n], param_to_hash);
elems!(HP, self, multi, [self.pc_params.gen_n, self.pc_params.gen_1, self.sc_params.gen_1, self.sc_params.gen_3, self.sc_params.gen_4], [self.pc_params.n], param_to_hash);

fn content<T: Elems>(t: &mut T) -> Value {
    let mut v = vec![];
    t.each(&mut |a| v.push(format!("{}", a.raw())));
    json!({"sizes": t.sizes().iter().map(|n| format!("{}", n)).collect::<Vec<_>>(), "elems": v})
}
fn neighbours<T: Elems>(what: &str, make: &dyn Fn() -> T, rec: &mut Rec) {
    let put = |t: &mut T, via: &str, rec: &mut Rec| { let x = content(t); let h = guarded(|| t.digest()); rec.put(what, "params", &x, via, h); };
    put(&mut make(), "made", rec);
    put(&mut make(), "again", rec);
    put(&mut again(&make()), "bytes", rec);
    let mut vals = vec![];
    make().each(&mut |a| vals.push(a.raw()));
    let set: BTreeSet<u64> = vals.iter().cloned().collect();
    for v in &set {
        for (via, w) in [("inc", (*v + 1) % GOLD), ("neg", (GOLD - *v) % GOLD)].iter() {
            let mut t = make();
            t.each(&mut |a| if a.raw() == *v { *a = G(raw(*w)) });
            put(&mut t, via, rec);
        }
    }
    for p in vals.windows(2) {
        let mut t = make();
        t.each(&mut |a| if a.raw() == p[0] { *a = G(raw(p[1])) } else if a.raw() == p[1] { *a = G(raw(p[0])) });
        put(&mut t, "swap", rec);
    }
}
fn raw(v: u64) -> F { use ark_ff::PrimeField; F::from_repr(v.into()).unwrap() }

fn layers(v: &Value) -> Vec<Vec<(u8, usize, usize)>> {
    v.as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(|g| (g[0].as_u64().unwrap() as u8, g[1].as_u64().unwrap() as usize, g[2].as_u64().unwrap() as usize)).collect()).collect()
}

fn main() {
    quiet_panics();
    let a = args();
    let insts = read_lines(&a[1]);
    let mut out = Out::new(&a[2]);
    let mut rec = Rec { out: &mut out, fam: 0 };
    for inst in &insts {
        rec.family();
        match inst.st("kind") {
            "r1cs" => for m in inst.arr("members") {
                let mk = || zkp_spartan::r1cs::generate_r1cs::<E, _>(r1cs::Circ::from_json(m).with(None, None)).unwrap();
                rec.put("r1cs", "r1cs", m, "made", guarded(|| mk().r1cs_to_hash()));
                rec.put("r1cs", "r1cs", m, "bytes", guarded(|| again(&mk()).r1cs_to_hash()));
            },
            "layered" => {
                for m in inst.arr("members") {
                    rec.put("libra", "layered", m, "made", guarded(|| zkp_libra::circuit::Circuit::new(m.us("ni"), m.us("na"), &layers(&m["layers"])).circuit_to_hash::<E>()));
                }
                rec.family();
                for m in inst.arr("members") {
                    rec.put("hyrax", "layered", m, "made", guarded(|| zkp_hyrax::circuit::Circuit::new(m.us("ni"), m.us("na"), &layers(&m["layers"])).circuit_to_hash::<E>()));
                }
            }
            _ => {
                let (n, s) = (inst.us("size"), seed() + 77 * inst.us("size") as u64);
                let c = r1cs::Circ::from_json(&inst["circ"]);
                neighbours::<LP>("libra-params", &|| LP::new(&mut rng(s), n), &mut rec);
                rec.family();
                neighbours::<HP>("hyrax-params", &|| HP::new(&mut rng(s), n), &mut rec);
                rec.family();
                neighbours::<NP>("nizk-params", &|| zkp_spartan::nizk::generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(s)).unwrap().params, &mut rec);
                rec.family();
                neighbours::<SP>("snark-params", &|| zkp_spartan::snark::generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(s)).unwrap().params, &mut rec);
                rec.family();
                neighbours::<EC>("encoding", &|| zkp_spartan::snark::generate_random_parameters::<E, _, _>(c.with(None, None), &mut rng(s)).unwrap().encode_comm, &mut rec);
            }
        }
    }
}
