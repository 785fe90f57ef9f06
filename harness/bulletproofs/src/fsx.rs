//! Challenge recordings of the Bulletproofs verifier (P26). The fields of proofs and generators are
//! private: they are altered in their serialized form, a sequence of 8-byte words.
use super::*;
use mock::fs::*;

pub fn word(b: &[u8], i: usize) -> usize { let mut a = [0u8; 8]; a.copy_from_slice(&b[8 * i..8 * i + 8]); u64::from_le_bytes(a) as usize }
/// names of the words of a proof (lengths have none), their number, the sizes of the vectors and of the inner product
pub fn words_of(p: &[u8]) -> (Vec<(Name, usize)>, usize, usize, usize) {
    let words = word;
    // names of the words of the proof; lengths have none
    let mut at: Vec<(Name, usize)> = vec![];
    let mut i = 0;
    for s in &["A_I", "A_O", "A_W", "S", "T_2", "T_3", "T_5", "T_6", "T_7", "T_8", "T_9", "T_10", "mu", "tau_x"] { at.push((nm(s, 0, 0), i)); i += 1; }
    let big = words(&p, i);
    for s in &["l_x", "r_x"] { let l = words(&p, i); i += 1; for j in 0..l { at.push((nm(s, 0, j + 1), i)); i += 1; } }
    at.push((nm("t_x", 0, 0), i)); i += 1;
    let lg = words(&p, i);
    for s in &["L", "R"] { let l = words(&p, i); i += 1; for j in 0..l { at.push((nm(s, 0, j + 1), i)); i += 1; } }
    i += 2;
    at.push((nm("P", 0, 0), i)); i += 1;
    (at, i, big, lg)
}
pub fn run<const P: u64>(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        let (pk, vk) = match guarded(|| Bp::<P>::setup(&c, sd)) { Ok(Ok(k)) => k, _ => continue };
        log::start();
        let p = guarded(|| Bp::<P>::prove(&pk, &c, &x, &w, sd + 1));
        let drawn = log::stop();
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let run = |k: &Key<P>, p: &Vec<u8>, x: &[i64]| match Bp::<P>::verify(k, p, x) { Ok(true) => "accept", Ok(false) => "reject", Err(_) => "error" };
        let (at, i, big, lg) = words_of(&p);
        let words = word;
        if i * 8 != p.len() { out.put(&json!({"ev": "skip", "inst": n, "words": p.len() / 8, "read": i})); continue; }
        let g = &vk.gens;
        let mut ag: Vec<(Name, usize)> = vec![];
        let mut i = 0;
        for s in &["gvec", "hvec"] { let l = words(g, i); i += 1; for j in 0..l { ag.push((nm(s, 0, j + 1), i)); i += 1; } }
        for s in &["g", "h", "u"] { ag.push((nm(s, 0, 0), i)); i += 1; }
        let sz = json!({"x": x.len(), "N": big, "lg": lg});
        let mut f = Fs::new(out, n, "bulletproofs", sz, &drawn, || run(&vk, &p, &x));
        for j in 0..x.len() { f.alter(&[nm("x", 0, j + 1)], "inc", || { let mut y = x.clone(); y[j] += 1; run(&vk, &p, &y) }); }
        let bump = |b: &[u8], i: usize| { let mut b = b.to_vec(); let v = words(&b, i) as u64; let v = if v + 3 < P { v + 3 } else { v - 3 }; b[8 * i..8 * i + 8].copy_from_slice(&v.to_le_bytes()); b };
        for (nm, i) in ag { f.alter(&[nm], "inc", || run(&Key { gens: bump(g, i), r1cs: vk.r1cs.clone(), seed: 0 }, &p, &x)); }
        for (nm, i) in at { f.alter(&[nm], "inc", || run(&vk, &bump(&p, i), &x)); }
        // the matrices: one entry, in both forms
        for m in 0..3 {
            let cells: Vec<(usize, usize)> = { let c = R1csCircuit::<Eng<P>>::deserialize(&vk.r1cs[..]).unwrap();
                let d = [&c.CL, &c.CR, &c.CO][m]; let mut v = vec![]; for i in 0..d.len() { for j in 0..d[i].len() { if v.len() < 12 { v.push((i, j)) } } } v };
            for (i, j) in cells {
                let mut c = R1csCircuit::<Eng<P>>::deserialize(&vk.r1cs[..]).unwrap();
                let (d, t) = match m { 0 => (&mut c.CL, &mut c.CL_T), 1 => (&mut c.CR, &mut c.CR_T), _ => (&mut c.CO, &mut c.CO_T) };
                d[i][j] += Fp::<P>::i(5);
                t.insert((i as u32, j as u32), d[i][j]);
                let k = Key { gens: g.clone(), r1cs: by(&c), seed: 0 };
                f.alter(&[nm("circuit", 0, 0)], "inc", || run(&k, &p, &x));
            }
        }
    }
}
