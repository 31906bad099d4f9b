//! Ownership tracking: which tracked values exist right now on this thread.
use crate::tape::{Tok, TokT};
use crate::val::{ToVal, Val};
use std::cell::RefCell;
use std::collections::BTreeSet;

const MAGIC: u64 = 0x6d63_5f6c_6976_6521;

#[derive(Default)]
pub struct Live {
    next: u64,
    pub live: BTreeSet<u64>,
    pub created: u64,
    pub faults: Vec<String>,
}

thread_local! {
    static LIVE: RefCell<Live> = RefCell::new(Live::default());
}

pub fn reset() {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        l.faults.clear();
        l.created = 0;
        // ids go on, so that a stale value of an earlier run is never mistaken for a live one
    })
}
pub fn count() -> usize {
    LIVE.with(|l| l.borrow().live.len())
}
pub fn created() -> u64 {
    LIVE.with(|l| l.borrow().created)
}
pub fn faults() -> Vec<String> {
    LIVE.with(|l| l.borrow().faults.clone())
}

/// A value whose creation and destruction are recorded. Plain data, so that even
/// the destruction of garbage is reported instead of crashing.
pub struct Tracked {
    canary: u64,
    id: u64,
    pub tok: Tok,
}
impl Tracked {
    pub fn new(tok: Tok) -> Self {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            l.created += 1;
            let id = l.next;
            l.live.insert(id);
            Tracked { canary: MAGIC, id, tok }
        })
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.tok)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.tok == o.tok
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let (canary, id) = unsafe { (std::ptr::read_volatile(&self.canary), std::ptr::read_volatile(&self.id)) };
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            if canary != MAGIC {
                l.faults.push("a value that was never created was dropped".into());
            } else if !l.live.remove(&id) {
                l.faults.push("a value was dropped a second time".into());
            }
        });
        self.canary = 0;
    }
}
impl TokT for Tracked {
    fn from_tok(t: Tok) -> Self {
        Tracked::new(t)
    }
    fn into_tok(self) -> Tok {
        self.tok
    }
}
impl ToVal for Tracked {
    fn to_val(self) -> Val {
        Val::T(self.tok)
    }
}
