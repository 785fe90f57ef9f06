//! Writes objects into byte streams and reads them back (P27).
use crate::io::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde_json::{json, Value};

pub const FORMS: [&str; 3] = ["compressed", "uncompressed", "unchecked"];
pub trait Item {
    fn name(&self) -> String;
    fn write(&self, form: usize) -> Vec<u8>;
    /// the announced size
    fn size(&self, form: usize) -> usize;
    fn behaviour(&self) -> String;
    /// read an object of this type: it written again, and what it does
    fn read(&self, form: usize, from: &mut &[u8], beh: bool) -> Result<(Vec<u8>, String), ()>;
}
pub struct O<T, B: Fn(&T) -> String> { pub name: &'static str, pub t: T, pub b: B }
fn wr<T: CanonicalSerialize>(t: &T, form: usize) -> Vec<u8> {
    let mut v = vec![];
    match form { 0 => t.serialize(&mut v), 1 => t.serialize_uncompressed(&mut v), _ => t.serialize_unchecked(&mut v) }.unwrap();
    v
}
impl<T: CanonicalSerialize + CanonicalDeserialize, B: Fn(&T) -> String> Item for O<T, B> {
    fn name(&self) -> String { self.name.into() }
    fn write(&self, form: usize) -> Vec<u8> { wr(&self.t, form) }
    fn size(&self, form: usize) -> usize { if form == 0 { self.t.serialized_size() } else { self.t.uncompressed_size() } }
    fn behaviour(&self) -> String { (self.b)(&self.t) }
    fn read(&self, form: usize, from: &mut &[u8], beh: bool) -> Result<(Vec<u8>, String), ()> {
        let t = match form { 0 => T::deserialize(from), 1 => T::deserialize_uncompressed(from), _ => T::deserialize_unchecked(from) }.map_err(|_| ())?;
        Ok((wr(&t, form), if beh { (self.b)(&t) } else { String::new() }))
    }
}
pub type Items<'a> = Vec<Box<dyn Item + 'a>>;
pub fn item<'a, T: CanonicalSerialize + CanonicalDeserialize + 'a>(name: &'static str, t: T, b: impl Fn(&T) -> String + 'a) -> Box<dyn Item + 'a> { Box::new(O { name, t, b }) }
/// digest of a behaviour
pub fn dig(b: &[u8]) -> String { let mut h = 0xcbf29ce484222325u64; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } format!("{:x}", h) }

/// streams: sequences of 1-based object indices (taken modulo the number of objects) with a cut in permille (1000: none)
pub fn check(out: &mut Out, inst: usize, items: &Items, streams: &[Value]) {
    let beh: Vec<String> = items.iter().map(|i| guarded(|| i.behaviour()).unwrap_or("panic".into())).collect();
    for (f, form) in FORMS.iter().enumerate() {
        let bytes: Vec<Vec<u8>> = items.iter().map(|i| i.write(f)).collect();
        for (k, i) in items.iter().enumerate() {
            let b = &bytes[k];
            out.put(&json!({"ev": "obj", "inst": inst, "id": k + 1, "name": i.name(), "form": form, "len": b.len(), "size": i.size(f), "beh": beh[k], "dig": dig(b)}));
            let l = b.len();
            let at: Vec<usize> = (0..l).filter(|c| l <= 240 || *c < 40 || *c + 40 >= l || c % (l / 80) == 1).collect();
            let res: Vec<&str> = at.iter().map(|c| match guarded(|| i.read(f, &mut &b[..*c], false)) { Ok(Ok(_)) => "ok", Ok(Err(_)) => "error", Err(_) => "panic" }).collect();
            out.put(&json!({"ev": "cuts", "inst": inst, "id": k + 1, "form": form, "at": at, "res": res}));
        }
        for s in streams {
            let ids: Vec<usize> = s.ints("ids").iter().map(|i| (*i as usize - 1) % items.len() + 1).collect();
            let mut b = vec![];
            for i in &ids { b.extend(&bytes[*i - 1]); }
            let cut = if s.us("cut") >= 1000 { b.len() } else { b.len() * s.us("cut") / 1000 };
            let mut left = &b[..cut];
            let mut got = vec![];
            for i in &ids {
                let before = left.len();
                let r = guarded(|| { let mut l = left; let r = items[*i - 1].read(f, &mut l, true); (r, l.len()) });
                let (res, same, bh, after) = match r {
                    Ok((Ok((w, bh)), a)) => ("ok", w == bytes[*i - 1], bh, a),
                    Ok((Err(_), a)) => ("error", false, String::new(), a),
                    Err(_) => ("panic", false, String::new(), 0),
                };
                left = &left[before - after..];
                got.push(json!({"r": res, "used": before - after, "same": same, "beh": bh}));
                if res != "ok" { break; }
            }
            out.put(&json!({"ev": "stream", "inst": inst, "form": form, "ids": ids, "cut": cut, "got": got}));
        }
    }
}
/// an object altered in one place: it is another one, also in bytes
pub fn altered(out: &mut Out, inst: usize, name: &str, a: &dyn Item, b: &dyn Item) {
    for (f, form) in FORMS.iter().enumerate() {
        let (x, y) = (a.write(f), b.write(f));
        let back = guarded(|| b.read(f, &mut &y[..], false));
        let back = match &back { Ok(Ok((w, _))) => *w == y, _ => false };
        out.put(&json!({"ev": "altered", "inst": inst, "name": name, "form": form, "eq": x == y, "back": back}));
    }
}
