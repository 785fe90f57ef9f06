#!/usr/bin/env python3
"""plants a bug: plant.py DEF.py  ->  seeded/<id>/ and a line in seeded/RESULTS.txt
DEF.py sets ID, PROP, EDITS=[(file, old, new)], NEEDS, WHAT, DEPS (crates of /repo), MAIN (rust), optionally CMD."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%s
rand = "0.7"
merlin = { version = "2", default-features = false }
blake2 = "0.9"
ark-ff = "0.2"
ark-std = "0.2"
ark-ec = "0.2"
ark-poly = "0.2"
ark-serialize = "0.2"
ark-poly-commit = { version = "0.2", default-features = false }
ark-bls12-381 = { version = "0.2", default-features = false, features = ["curve"] }
[profile.dev]
opt-level = 1
debug = 0
[workspace]
"""
DEMO = """#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/"
cd "$d" || exit 1
export CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target} RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 3
%s
"""


# a circuit given as lists of terms: (variable, coefficient), variable 0 = one, then inputs, then witnesses
R1CS = """
#![allow(dead_code, unused_imports)]
use ark_bls12_381::{Bls12_381 as E, Fr};
use ark_ff::{One, Zero, UniformRand, Field, PrimeField};
use rand::SeedableRng;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError, Variable, LinearCombination};
pub type Lc = Vec<(usize, i64)>;
#[derive(Clone)]
pub struct Circ { pub x: Vec<i64>, pub w: Vec<i64>, pub cons: Vec<(Lc, Lc, Lc)>, pub known: bool }
pub fn fr(i: i64) -> Fr { if i < 0 { -Fr::from((-i) as u64) } else { Fr::from(i as u64) } }
pub fn frs(v: &[i64]) -> Vec<Fr> { v.iter().map(|i| fr(*i)).collect() }
impl Circ {
    pub fn new(x: &[i64], w: &[i64], cons: Vec<(Lc, Lc, Lc)>) -> Self { Circ { x: x.to_vec(), w: w.to_vec(), cons, known: true } }
    pub fn blank(&self) -> Self { let mut c = self.clone(); c.known = false; c }
    pub fn with(&self, x: &[i64], w: &[i64]) -> Self { let mut c = self.clone(); c.x = x.to_vec(); c.w = w.to_vec(); c }
}
impl ConstraintSynthesizer<Fr> for Circ {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let known = self.known;
        let mut v = vec![CS::one()];
        for (i, x) in self.x.iter().enumerate() { v.push(cs.alloc_input(|| format!("x{}", i), || if known { Ok(fr(*x)) } else { Err(SynthesisError::AssignmentMissing) })?); }
        for (i, w) in self.w.iter().enumerate() { v.push(cs.alloc(|| format!("w{}", i), || if known { Ok(fr(*w)) } else { Err(SynthesisError::AssignmentMissing) })?); }
        let lin = |l: &Lc| { let mut r = LinearCombination::zero(); for (i, c) in l { r = r + (fr(*c), v[*i]); } r };
        for (i, (a, b, c)) in self.cons.iter().enumerate() { cs.enforce(|| format!("c{}", i), |_| lin(a), |_| lin(b), |_| lin(c)); }
        Ok(())
    }
}
pub fn rng(s: u64) -> rand::rngs::StdRng { rand::rngs::StdRng::seed_from_u64(s) }
/// fails (exit 1) unless the closure returns true without panicking
pub fn must(what: &str, f: impl FnOnce() -> bool + std::panic::UnwindSafe) {
    match std::panic::catch_unwind(f) { Ok(true) => (), r => { println!("FAILED: {} ({})", what, if r.is_ok() { "wrong result" } else { "panic" }); std::process::exit(1) } }
}
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(edits):
    for f, a, b in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(a) != 1:
            sys.exit("edit of %s matches %d times: %r" % (f, s.count(a), a))
        open(p, "w").write(s.replace(a, b))


def main():
    for fn in sys.argv[1:]:
        g = {"R1CS": R1CS}
        exec(open(fn).read(), g)
        assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
        d = os.path.join(ROOT, "seeded", g["ID"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/demo/src")
        deps = "\n".join('%s = { path = "/repo/%s"%s }' % ("zkp-" + c.split(":")[0], c.split(":")[0], c.split(":")[1] if ":" in c else "") for c in g["DEPS"])
        open(d + "/demo/Cargo.toml", "w").write(CARGO % deps)
        shutil.copy(ROOT + "/harness/Cargo.lock", d + "/demo/Cargo.lock")
        open(d + "/demo/src/main.rs", "w").write(g["MAIN"])
        open(d + "/demo.sh", "w").write(DEMO % g.get("CMD", '"$CARGO_TARGET_DIR/debug/demo"'))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["WHAT"]}, open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, DEMO_TARGET=os.environ.get("PLANT_TARGET", "/tmp/demo_target"))
        try:
            r = sh("cd /repo && bash %s/demo.sh" % d, env=env)
            clean = r.returncode
            if clean:
                print("demo fails on clean tree:", r.stdout[-1500:])
            apply(g["EDITS"])
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            r = sh("cd /repo && bash %s/demo.sh" % d, env=env)
            bug = r.returncode
            out = r.stdout[-300:]
            if b.returncode:
                print("BUILD FAILS", b.stdout[-1500:])
            sh("bash /opt/vp/test.sh /tmp/plant_t.json.%d" % os.getpid() + "")
            t = json.load(open("/tmp/plant_t.json.%d" % os.getpid()))
            base = json.load(open("/opt/vp/BASELINE.json"))
            miss = missing(t, base)
            c = sh("cd %s && ./check %s" % (ROOT, g["PROP"]), timeout=900) if not b.returncode else None
        finally:
            sh("git -C /repo checkout -- .")
        caught = c is not None and c.returncode == 1
        why = [l for l in c.stdout.splitlines() if "violated:" in l][:1] if c else []
        ok = clean == 0 and bug != 0 and bug != 3 and not miss and b.returncode == 0
        line = "%s property=%s valid=%s (demo clean=%d bug=%d, tests broken=%s) check=%s rc=%s %s" % (
            g["ID"], g["PROP"], ok, clean, bug, sorted(miss)[:3], "CAUGHT" if caught else "missed", c.returncode if c else None, why[0].strip()[:60] if why else "")
        print(line, "| demo says:", out.strip()[:200])
        if c is not None and not caught:
            print(c.stdout[-600:])
        if not ok:
            shutil.move(d, "/tmp/bugs/invalid_" + g["ID"]) if not os.path.exists("/tmp/bugs/invalid_" + g["ID"]) else shutil.rmtree(d)


def missing(t, base):
    return set(base["stable"]) - set(t["passed"])


main()
