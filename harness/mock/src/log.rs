//! Thread-local record of the field elements the code under test samples / derives.
use std::cell::RefCell;
thread_local! {
    static ON: RefCell<bool> = RefCell::new(false);
    static CH: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static SCRIPT: RefCell<Option<std::collections::VecDeque<u64>>> = RefCell::new(None);
}
/// start recording challenge values (transcript challenges and values drawn through `F::rand`)
pub fn start() { ON.with(|o| *o.borrow_mut() = true); CH.with(|c| c.borrow_mut().clear()); }
pub fn stop() -> Vec<u64> {
    ON.with(|o| *o.borrow_mut() = false);
    CH.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
pub fn rec(v: u64) { if ON.with(|o| *o.borrow()) { CH.with(|c| c.borrow_mut().push(v)) } }
/// force the next transcript challenges (interactive-protocol replay); None = real Fiat-Shamir
pub fn script(s: Option<Vec<u64>>) { SCRIPT.with(|x| *x.borrow_mut() = s.map(|v| v.into_iter().collect())) }
thread_local! {
    static WORD: RefCell<Option<usize>> = RefCell::new(None);
    static DRAWS: RefCell<Vec<usize>> = RefCell::new(Vec::new());
}
/// the scripted generator handed out this word
pub fn word(p: usize) { WORD.with(|w| *w.borrow_mut() = Some(p)) }
/// the word was used as a field element
pub fn took() -> bool { WORD.with(|w| w.borrow_mut().take()).map(|p| DRAWS.with(|d| d.borrow_mut().push(p))).is_some() }
pub fn untook() { WORD.with(|w| { w.borrow_mut().take(); }) }
/// words used as field elements since the last call
pub fn draws() -> Vec<usize> { WORD.with(|w| w.borrow_mut().take()); DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut())) }
pub fn next_scripted() -> Option<u64> { SCRIPT.with(|x| x.borrow_mut().as_mut().and_then(|q| q.pop_front())) }
