//! Replays histories of Group25519 on the real wrapper.
use ark_ff::{BigInteger, BigInteger256, FftField, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, Zero};
use ark_serialize::*;
use mock::{args, guarded, json, quiet_panics, read_lines, Out, J};
use std::hash::{Hash, Hasher};
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::{Curve25519, Curve25519Point as Pt, Fr};

fn bytes<T: ToBytes>(v: &T) -> Vec<u8> { let mut b = vec![]; v.write(&mut b).unwrap(); b }
fn hash<T: Hash>(v: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() }
/// byte round trips; every form must write as many bytes as it says
fn round<T: ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize>(v: &T, f: usize) -> Result<T, String> {
    let mut b = vec![];
    let (n, r) = match f {
        0 => { v.write(&mut b).unwrap(); (b.len(), T::read(&b[..]).map_err(|e| e.to_string())) }
        1 => { v.serialize(&mut b).unwrap(); (v.serialized_size(), T::deserialize(&b[..]).map_err(|e| e.to_string())) }
        2 => { v.serialize_uncompressed(&mut b).unwrap(); (v.uncompressed_size(), T::deserialize_uncompressed(&b[..]).map_err(|e| e.to_string())) }
        _ => { v.serialize_unchecked(&mut b).unwrap(); (b.len(), T::deserialize_unchecked(&b[..]).map_err(|e| e.to_string())) }
    };
    if n != b.len() { return Err(format!("size {} written {}", n, b.len())) }
    r
}
fn konst(k: i64, e: usize, f: usize) -> Fr {
    let a = if f == 0 { let mut l = [0u64; 4]; l[e] = k.abs() as u64; Fr::from_repr(BigInteger256(l)).unwrap() }
        else { let mut v = Fr::from(k.abs() as u64); for _ in 0..e { v *= Fr::from(1u128 << 64); } v };
    if k < 0 { -a } else { a }
}
const ORDER: [u8; 32] = [237, 211, 245, 92, 26, 99, 18, 88, 214, 156, 247, 162, 222, 249, 222, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16];
/// the bytes of the group order plus k
fn order_plus(k: i64) -> Vec<u8> {
    let mut c = k as i128;
    ORDER.iter().map(|b| { let v = *b as i128 + c; c = v.div_euclid(256); v.rem_euclid(256) as u8 }).collect()
}
fn bad_point(k: usize) -> Vec<u8> {
    let (a, m, z) = [(0, 255, 255), (255, 255, 127), (243, 255, 127), (237, 255, 127), (1, 0, 0), (1, 255, 127)][k - 1];
    let mut b = vec![m; 32]; b[0] = a; b[31] = z; b
}
/// 2^255 - 19 minus b
fn minus(p: &[u8; 3], b: &[u8]) -> Vec<u8> {
    let mut c = 0i32;
    (0..32).map(|i| { let v = (match i { 0 => p[0], 31 => p[2], _ => p[1] }) as i32 - b[i] as i32 + c; c = v >> 8; v as u8 }).collect()
}
fn ask(s: &[Fr], p: &[Pt], o: &str, e: &mock::Value) -> String {
    let k = e["k"].as_i64().unwrap();
    let f = e.us("f");
    match o {
        "q_sqrt" => { let a = s[e.us("a") - 1]; match a.square().sqrt() { Some(r) if r == a || r == -a => "root".into(), Some(_) => "wrong".into(), None => "none".into() } }
        "q_leg" => {
            let mut a = s[e.us("a") - 1].square();
            for _ in 0..k { a *= Fr::from(2u64); }
            let l = a.legendre();
            if l.is_zero() { "zero" } else if l.is_qr() { "square" } else { "nonsquare" }.into()
        }
        "q_scalar" => {
            let b = order_plus(k);
            let r = match f {
                0 => Fr::read(&b[..]).ok(),
                1 => Fr::deserialize(&b[..]).ok(),
                2 => Fr::deserialize_uncompressed(&b[..]).ok(),
                _ => { let mut n = BigInteger256::default(); n.read_le(&mut &b[..]).unwrap(); Fr::from_repr(n) }
            };
            match r { None => "error", Some(v) if v == konst(k, 0, 0) => "same", _ => "other" }.into()
        }
        "q_point" => {
            let b = bad_point(k as usize);
            let r = match f { 0 => Pt::read(&b[..]).ok(), 1 => Pt::deserialize(&b[..]).ok(), 2 => Pt::deserialize_uncompressed(&b[..]).ok(), _ => Pt::read(&b[..]).ok() };
            if r.is_none() { "error" } else { "point" }.into()
        }
        "q_alias" | "q_sbits" => {
            let point = o == "q_alias";
            let mut b = if point { bytes(&p[e.us("a") - 5]) } else { bytes(&s[e.us("a") - 1]) };
            match (point, k) {
                (true, 1) => b[31] |= 0x80,
                (true, 2) => b = minus(&[237, 255, 127], &b),
                (true, 3) => b[0] ^= 1,
                (_, 4) => { b.pop(); }
                (false, 5) => { let mut c = 0u32; for (x, y) in b.iter_mut().zip(&ORDER) { c += *x as u32 + 2 * *y as u32; *x = c as u8; c >>= 8; } }
                _ => b[31] |= 1 << (4 + k),
            }
            let none = if point { match f { 1 => Pt::deserialize(&b[..]).is_err(), 2 => Pt::deserialize_uncompressed(&b[..]).is_err(), _ => Pt::read(&b[..]).is_err() } }
                else { match f { 1 => Fr::deserialize(&b[..]).is_err(), 2 => Fr::deserialize_uncompressed(&b[..]).is_err(), _ => Fr::read(&b[..]).is_err() } };
            if none { "error" } else { "value" }.into()
        }
        "q_root" => {
            let r = Fr::two_adic_root_of_unity();
            let g = Fr::multiplicative_generator();
            format!("{} {}", if r.square() == -Fr::one() { "order4" } else { "wrong" }, if g.legendre().is_qnr() { "nonsquare" } else { "square" })
        }
        o => panic!("{}", o),
    }
}
fn step(s: &mut Vec<Fr>, p: &mut Vec<Pt>, e: &mock::Value) -> Result<(), String> {
    let (f, d, k) = (e.us("f"), e.us("d"), e["k"].as_i64().unwrap());
    let ls: Vec<(usize, usize)> = e.arr("ls").iter().map(|x| (x.us("s") - 1, x.us("p") - 5)).collect();
    let o = e.st("op");
    if d <= 4 {
        let a = s[e.us("a").max(1) - 1];
        let b = s[e.us("b").max(1) - 1];
        s[d - 1] = match o {
            "s_const" => konst(k, e.us("e"), f),
            "s_add" => match f { 0 => a + b, 1 => a + &b, _ => { let mut x = a; x += &b; x } },
            "s_sub" => match f { 0 => a - b, 1 => a - &b, _ => { let mut x = a; x -= &b; x } },
            "s_mul" => match f { 0 => a * b, 1 => a * &b, _ => { let mut x = a; x *= &b; x } },
            "s_div" => match f { 0 => a / b, _ => { let mut x = a; x /= &b; x } },
            "s_neg" => -a,
            "s_dbl" => if f == 0 { a.double() } else { let mut x = a; x.double_in_place(); x },
            "s_sq" => if f == 0 { a.square() } else { let mut x = a; x.square_in_place(); x },
            "s_inv" => if f == 0 { a.inverse().ok_or("no inverse")? } else { let mut x = a; x.inverse_in_place().ok_or("no inverse")?; x },
            "s_pow" => a.pow(&[k as u64]),
            "s_rt" => if f == 3 { Fr::from_repr(a.into_repr()).ok_or("not canonical")? } else { round(&a, f)? },
            "s_sum" => ls.iter().map(|x| s[x.0]).sum(),
            o => panic!("{}", o),
        };
        return Ok(());
    }
    let a = e.us("a");
    let b = p[e.us("b").max(5) - 5];
    let pa = if a >= 5 { p[a - 5] } else { p[0] };
    p[d - 5] = match o {
        "p_gen" => if f == 0 { <Pt as AffineCurve>::prime_subgroup_generator() } else { <Pt as ProjectiveCurve>::prime_subgroup_generator() },
        "p_other" => <Pt as AffineCurve>::from_random_bytes(b"another point").ok_or("none")?,
        "p_zero" => if f == 0 { Pt::zero() } else { Pt::default() },
        "p_add" => match f { 0 => pa + b, 1 => pa + &b, 2 => { let mut x = pa; x += b; x }, 3 => { let mut x = pa; x += &b; x },
            4 => pa.add_mixed(&b), _ => { let mut x = pa; x.add_assign_mixed(&b); x } },
        "p_sub" => match f { 0 => pa - b, 1 => pa - &b, 2 => { let mut x = pa; x -= b; x }, _ => { let mut x = pa; x -= &b; x } },
        "p_neg" => -pa,
        "p_dbl" => if f == 0 { ProjectiveCurve::double(&pa) } else { let mut x = pa; x.double_in_place(); x },
        "p_mul" => { let c = s[a - 1]; match f { 0 => { let mut x = b; x *= c; x }, 1 => AffineCurve::mul(&b, c), _ => ProjectiveCurve::mul(b, c.into_repr()) } }
        "p_rt" => round(&pa, f)?,
        "p_norm" => match f {
            0 => AffineCurve::into_projective(&ProjectiveCurve::into_affine(&pa)),
            1 => { let mut v = vec![b, pa, Pt::zero()]; <Pt as ProjectiveCurve>::batch_normalization(&mut v); if !v[1].is_normalized() { return Err("not normalized".into()) } v[1] }
            2 => <Pt as ProjectiveCurve>::batch_normalization_into_affine(&[pa, b])[0],
            _ => *[pa].iter().max_by_key(|_| 0).unwrap(),
        },
        "p_msm" => {
            let mut ss: Vec<Fr> = ls.iter().map(|x| s[x.0]).collect();
            let mut pp: Vec<Pt> = ls.iter().map(|x| p[x.1]).collect();
            // the shorter list decides
            if f == 1 { ss.push(s[0]); ss.push(s[1]) }
            if f == 2 { pp.push(p[3]) }
            Curve25519::vartime_multiscalar_mul(&ss, &pp)
        }
        "p_sum" => if f == 0 { ls.iter().map(|x| p[x.1]).sum() } else { let v: Vec<&Pt> = ls.iter().map(|x| &p[x.1]).collect(); v.into_iter().sum() },
        o => panic!("{}", o),
    };
    Ok(())
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a[2]);
    for (n, inst) in read_lines(&a[1]).iter().enumerate() {
        let (mut s, mut p) = (vec![Fr::zero(); 4], vec![Pt::zero(); 4]);
        for e in inst.arr("ops") {
            let mut o = e.clone();
            o["ev"] = json!("op"); o["inst"] = json!(n);
            let d = e.us("d");
            if d == 0 {
                let r = guarded(|| ask(&s, &p, e.st("op"), e));
                o["res"] = json!(if r.is_ok() { "ok" } else { "panic" });
                o["ans"] = json!(r.unwrap_or_else(|m| m));
                out.put(&o);
                continue;
            }
            let (mut s2, mut p2) = (s.clone(), p.clone());
            let r = guarded(|| step(&mut s2, &mut p2, e));
            match r {
                Ok(Ok(())) => { s = s2; p = p2; o["res"] = json!("ok"); }
                Ok(Err(m)) => { o["res"] = json!("error"); o["msg"] = json!(m); out.put(&o); break }
                Err(m) => { o["res"] = json!("panic"); o["msg"] = json!(m); out.put(&o); break }
            }
            if d <= 4 {
                let v = s[d - 1];
                o["eq"] = json!(s.iter().map(|x| *x == v && !(*x != v)).collect::<Vec<_>>());
                o["enc"] = json!(s.iter().map(|x| bytes(x) == bytes(&v)).collect::<Vec<_>>());
                o["heq"] = json!(s.iter().map(|x| hash(x) == hash(&v)).collect::<Vec<_>>());
                o["zero"] = json!(v.is_zero()); o["one"] = json!(v.is_one()); o["y"] = json!(bytes(&v)); o["len"] = json!(v.serialized_size());
            } else {
                let v = p[d - 5];
                o["eq"] = json!(p.iter().map(|x| *x == v && !(*x != v)).collect::<Vec<_>>());
                o["enc"] = json!(p.iter().map(|x| bytes(x) == bytes(&v)).collect::<Vec<_>>());
                o["heq"] = json!(p.iter().map(|x| hash(x) == hash(&v)).collect::<Vec<_>>());
                o["zero"] = json!(v.is_zero()); o["one"] = json!(false); o["y"] = json!(bytes(&v)); o["len"] = json!(v.serialized_size());
            }
            out.put(&o);
        }
    }
}
