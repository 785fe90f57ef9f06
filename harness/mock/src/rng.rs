use rand::{CryptoRng, Error, RngCore, SeedableRng};
use rand_chacha::ChaChaRng;

pub fn rng(seed: u64) -> ChaChaRng { ChaChaRng::seed_from_u64(seed) }

/// RNG whose next_u64 draws come from a script (then from `fallback`), recording every draw.
#[derive(Clone)]
pub struct ScriptRng { pub script: Vec<u64>, pub pos: usize, pub drawn: Vec<u64>, pub fallback: ChaChaRng }
impl ScriptRng {
    pub fn new(script: Vec<u64>, seed: u64) -> Self { ScriptRng { script, pos: 0, drawn: vec![], fallback: rng(seed) } }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        let v = if self.pos < self.script.len() { self.script[self.pos] } else { self.fallback.next_u64() };
        crate::log::word(self.pos);
        self.pos += 1;
        self.drawn.push(v);
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); let n = c.len(); c.copy_from_slice(&b[..n]); }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ScriptRng {}
