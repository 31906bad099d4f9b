//! Stops an execution that allocates without end (exit code 77), and one that computes
//! without end (exit code 78). The supervisor replays what the crumbs name to confirm it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;
#[thread_local]
static USED: Cell<usize> = Cell::new(0);
pub const LIMIT: usize = 512 << 20;
/// bytes held by this thread, and the most since `peak_from_here`
#[thread_local]
static HELD: Cell<isize> = Cell::new(0);
#[thread_local]
static PEAK: Cell<isize> = Cell::new(0);

pub fn reset() {
    USED.set(0);
}
pub fn held() -> isize {
    HELD.get()
}
pub fn peak_from_here() {
    PEAK.set(HELD.get());
}
pub fn peak() -> isize {
    PEAK.get()
}
fn change(by: isize) {
    let h = HELD.get() + by;
    HELD.set(h);
    if h > PEAK.get() {
        PEAK.set(h);
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let u = USED.get() + l.size();
        USED.set(u);
        if u > LIMIT {
            _exit(77);
        }
        change(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let u = USED.get() + n;
        USED.set(u);
        if u > LIMIT {
            _exit(77);
        }
        change(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GUARD: Guard = Guard;

/// Ends the process when one execution has not ended for `limit` ticks of 100 ms.
pub fn watchdog(limit: u32) {
    std::thread::spawn(move || {
        let mut seen = vec![(0u32, 0u32); crate::crumb::WORKERS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            for (i, s) in seen.iter_mut().enumerate() {
                let seq = crate::crumb::word_of(i, 0);
                let running = crate::crumb::word_of(i, 2) == 1;
                if running && s.0 == seq {
                    s.1 += 1;
                    if s.1 > limit {
                        unsafe { _exit(78) }
                    }
                } else {
                    *s = (seq, 0);
                }
            }
        }
    });
}
