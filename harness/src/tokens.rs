//! Keys and values whose every creation and destruction is recorded, and whose code panics on demand.

use crate::engine::Src;
use crate::keys::Key;
use crate::maps::Val;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};
use std::mem::ManuallyDrop;
use std::ops::Range;

thread_local! {
    /// For each token ever made: how often it was dropped.
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static ODD: Cell<u64> = const { Cell::new(0) };
}

/// Forgets all tokens.
pub fn reset() {
    DROPS.with(|d| *d.borrow_mut() = Vec::new());
    CALLS.set(0);
    FUSE.set(0);
    ODD.set(0);
}

/// The k-th call from now into user code panics; 0 for none.
pub fn fuse(k: u64) {
    FUSE.set(k);
}

pub fn calls() -> u64 {
    CALLS.get()
}

/// Tokens that were never dropped, and ones that were dropped more than once.
pub fn report() -> (usize, usize, usize) {
    DROPS.with(|d| {
        let d = d.borrow();
        (d.len(), d.iter().filter(|x| **x == 0).count(), d.iter().filter(|x| **x > 1).count() + ODD.get() as usize)
    })
}

fn call() {
    CALLS.set(CALLS.get() + 1);
    match FUSE.get() {
        0 => {}
        1 => {
            FUSE.set(0);
            panic!("injected");
        }
        k => FUSE.set(k - 1),
    }
}

fn made() -> usize {
    DROPS.with(|d| {
        let mut d = d.borrow_mut();
        d.push(0);
        d.len() - 1
    })
}

/// Whether the token is alive; a dead one being used is counted against the code under test.
fn alive(serial: usize) -> bool {
    let ok = DROPS.with(|d| d.borrow().get(serial) == Some(&0));
    if !ok {
        ODD.set(ODD.get() + 1);
    }
    ok
}

fn dropped(serial: usize) -> bool {
    let first = DROPS.with(|d| match d.borrow_mut().get_mut(serial) {
        Some(x) => {
            *x += 1;
            *x == 1
        }
        None => false,
    });
    if !first {
        ODD.set(ODD.get() + 1);
    }
    first
}

/// A token with text: a key for the string-like collections.
pub struct Tok {
    serial: usize,
    text: ManuallyDrop<String>,
}

impl Tok {
    pub fn new(text: String) -> Self {
        Self { serial: made(), text: ManuallyDrop::new(text) }
    }
}

impl Tok {
    pub fn text(&self) -> String {
        (*self.text).clone()
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if dropped(self.serial) {
            // SAFETY: dropped for the first time
            unsafe { ManuallyDrop::drop(&mut self.text) };
        }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        call();
        if alive(self.serial) {
            Self::new((*self.text).clone())
        } else {
            Self::new(String::new())
        }
    }
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", *self.text)
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        call();
        alive(self.serial) && alive(o.serial) && *self.text == *o.text
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        self.text.cmp(&o.text)
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        call();
        if alive(self.serial) {
            Hash::hash(&*self.text, h);
        }
    }
}
impl Len for Tok {
    fn len(&self) -> usize {
        call();
        if alive(self.serial) { self.text.len() } else { 0 }
    }
}
impl SliceHash for Tok {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        call();
        if alive(self.serial) { SliceHash::hash(&*self.text, bh, range) } else { 0 }
    }
}

impl Key for Tok {
    const NAME: &'static str = "Tok";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let (v, f) = crate::keys::gen_strings(src, n);
        (v.into_iter().map(Self::new).collect(), f)
    }
    fn probes(_: &mut Src, _: &[Self]) -> Vec<Self> {
        Vec::new()
    }
}

/// A token that is a value.
pub struct Payload {
    serial: usize,
    pub n: ManuallyDrop<Box<u64>>,
}

impl Payload {
    pub fn new(n: u64) -> Self {
        Self { serial: made(), n: ManuallyDrop::new(Box::new(n)) }
    }
}

impl Drop for Payload {
    fn drop(&mut self) {
        if dropped(self.serial) {
            // SAFETY: dropped for the first time
            unsafe { ManuallyDrop::drop(&mut self.n) };
        }
    }
}

impl Clone for Payload {
    fn clone(&self) -> Self {
        call();
        Self::new(if alive(self.serial) { **self.n } else { 0 })
    }
}

impl PartialEq for Payload {
    fn eq(&self, o: &Self) -> bool {
        call();
        alive(self.serial) && alive(o.serial) && *self.n == *o.n
    }
}

impl std::fmt::Debug for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", **self.n)
    }
}

impl Val for Payload {
    const MANY: bool = true;
}
