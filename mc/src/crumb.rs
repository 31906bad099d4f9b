//! What every worker is doing right now, in a file mapped into memory, so that an execution
//! that kills or hangs the process can be named and replayed by the supervisor.
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::Relaxed};

pub const WORKERS: usize = 64;
/// words per worker: seq, program, state (0 idle, 1 running), eof, number of tokens, tokens
pub const WORDS: usize = 4096;
const TOKS: usize = WORDS - 8;

static BASE: AtomicPtr<AtomicU32> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

thread_local! {
    static ME: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

pub fn open(path: &str) {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("crumb file");
    let len = WORKERS * WORDS * 4;
    f.set_len(len as u64).expect("crumb file");
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    BASE.store(p as *mut AtomicU32, Relaxed);
}
fn word(i: usize) -> Option<&'static AtomicU32> {
    let b = BASE.load(Relaxed);
    if b.is_null() {
        None
    } else {
        Some(unsafe { &*b.add(ME.with(|m| m.get()) * WORDS + i) })
    }
}
pub fn word_of(worker: usize, i: usize) -> u32 {
    let b = BASE.load(Relaxed);
    if b.is_null() {
        0
    } else {
        unsafe { &*b.add(worker * WORDS + i) }.load(Relaxed)
    }
}
pub fn worker(i: usize) {
    assert!(i < WORKERS);
    ME.with(|m| m.set(i));
}
pub fn begin(prog: usize) {
    if let Some(w) = word(0) {
        w.fetch_add(1, Relaxed);
        word(1).unwrap().store(prog as u32, Relaxed);
        word(3).unwrap().store(0, Relaxed);
        word(4).unwrap().store(0, Relaxed);
        word(2).unwrap().store(1, Relaxed);
    }
}
/// Case number within a program that is not driven by a tape.
pub fn case(n: u32) {
    if let Some(w) = word(5) {
        w.store(n, Relaxed);
    }
}
pub fn end() {
    if let Some(w) = word(2) {
        w.store(0, Relaxed);
    }
}
pub fn push(t: u32) {
    if let Some(w) = word(4) {
        let n = w.load(Relaxed) as usize;
        if n < TOKS {
            word(8 + n).unwrap().store(t, Relaxed);
            w.store(n as u32 + 1, Relaxed);
        }
    }
}
pub fn eof() {
    if let Some(w) = word(3) {
        w.store(1, Relaxed);
    }
}
pub fn set_toks(ts: &[u32]) {
    for t in ts {
        push(*t);
    }
    eof();
}
