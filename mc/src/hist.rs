//! Histories of buffer and cursor operations on the real code, against positions in a sequence.
//! Every history up to a depth; every reachable state (explicit-state search, to a fixpoint, so
//! histories of any length); every combination of cached, consumed and skipped amounts on long
//! sources; every short history over and over.
use crate::explore::Stats;
use crate::run::{args, silence, write_report, Report, Violation, STACK};
use crate::tape::Tok;
use crate::{alloc, crumb};
use nommy::{Buf, Buffer, Cursor, IntoBuf};
use std::cell::Cell;
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// operations; those with an argument are BASE + argument
pub const NEXT: u32 = 0;
pub const OPEN: u32 = 1;
pub const DROP: u32 = 2;
pub const COMMIT: u32 = 3;
pub const RESET: u32 = 4;
pub const AHEAD: u32 = 1 << 24;
pub const SKIP: u32 = 2 << 24;
pub const NTH: u32 = 3 << 24;

fn show(op: u32) -> String {
    match op {
        NEXT => "next()".into(),
        OPEN => "cursor() {".into(),
        DROP => "drop }".into(),
        COMMIT => "} parent.fast_forward(position())".into(),
        RESET => "reset_internal()".into(),
        o if o >= NTH => format!("nth({})", o - NTH),
        o if o >= SKIP => format!("fast_forward({})", o - SKIP),
        o if o >= AHEAD => format!("peek_ahead({})", o - AHEAD),
        o => format!("?{}", o),
    }
}

/// What the source delivers: small and large elements, such that own memory, such of no size.
trait Elem: Clone + 'static {
    /// element `i` of the source
    fn make(i: usize) -> Self;
    /// which it is; `i` itself if that cannot be told
    fn index(&self, i: usize) -> usize;
}
impl Elem for u32 {
    fn make(i: usize) -> u32 {
        i as u32 + 100
    }
    fn index(&self, _: usize) -> usize {
        self.wrapping_sub(100) as usize
    }
}
impl Elem for () {
    fn make(_: usize) {}
    fn index(&self, i: usize) -> usize {
        i
    }
}
impl Elem for Box<usize> {
    fn make(i: usize) -> Self {
        Box::new(i)
    }
    fn index(&self, _: usize) -> usize {
        **self
    }
}
/// (with a value at either end)
#[derive(Clone)]
struct Wide<T>(usize, T, usize);
impl<T: Clone + Default + 'static> Elem for Wide<T> {
    fn make(i: usize) -> Self {
        Wide(i, T::default(), !i)
    }
    fn index(&self, _: usize) -> usize {
        if self.2 == !self.0 {
            self.0
        } else {
            usize::MAX
        }
    }
}
#[derive(Clone)]
struct Fill<const N: usize>([u64; N]);
impl<const N: usize> Default for Fill<N> {
    fn default() -> Self {
        Fill([7; N])
    }
}

struct Src<E> {
    at: usize,
    len: usize,
    /// elements delivered, ends reported
    pulled: Rc<Cell<(usize, usize)>>,
    _e: std::marker::PhantomData<E>,
}
impl<E: Elem> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        let (n, e) = self.pulled.get();
        if self.at < self.len {
            self.at += 1;
            self.pulled.set((n + 1, e));
            Some(E::make(self.at - 1))
        } else {
            self.pulled.set((n, e + 1));
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.len >= ENDLESS {
            return (usize::MAX, None);
        }
        let left = self.len.saturating_sub(self.at);
        (left, Some(left))
    }
}

/// A length, as written down.
fn short(len: usize) -> u32 {
    if len >= ENDLESS {
        u32::MAX
    } else {
        len as u32
    }
}

fn count(len: u32) -> String {
    if len == u32::MAX {
        "endlessly many".into()
    } else {
        len.to_string()
    }
}

/// A source of this many elements goes on for ever.
const ENDLESS: usize = 1 << 40;

#[derive(Clone, Copy, PartialEq)]
pub struct What {
    /// values, positions
    pub values: bool,
    /// what is pulled from the source
    pub pulls: bool,
    /// the memory held
    pub space: bool,
}

struct Model {
    what: What,
    len: usize,
    /// absolute positions: the buffer's, then each open cursor's
    pos: Vec<usize>,
    start: Vec<usize>,
    /// one more than the furthest element asked for
    asked: usize,
    pulled: Rc<Cell<(usize, usize)>>,
    /// bytes held at the beginning; the most elements looked ahead at, at a time
    base: isize,
    size: usize,
    seen: usize,
    ahead: usize,
    /// state when the last operation had been done
    end: Option<(usize, bool)>,
    op: usize,
}

fn read(len: usize, p: usize) -> Option<usize> {
    if p < len {
        Some(p)
    } else {
        None
    }
}

impl Model {
    fn here(&self) -> usize {
        *self.pos.last().unwrap()
    }
    fn at(&mut self) -> &mut usize {
        self.pos.last_mut().unwrap()
    }
    fn ask(&mut self, upto: usize) {
        self.asked = self.asked.max(upto);
        self.seen = self.seen.max(upto);
        self.ahead = self.ahead.max(self.seen.saturating_sub(self.pos[0]));
    }
    fn space(&self) -> Result<(), String> {
        if !self.what.space {
            return Ok(());
        }
        let held = alloc::peak() - self.base;
        if held > (4096 + 16 * self.size + 8 * self.size * self.ahead) as isize {
            return self.fail(format!(
                "{} bytes have been held at a time, but never more than {} elements of {} bytes have been looked ahead at, of {} in all",
                held, self.ahead, self.size, self.asked
            ));
        }
        Ok(())
    }
    fn fail<X>(&self, s: String) -> Result<X, String> {
        Err(format!("operation {}: {}", self.op, s))
    }
    fn value<E: Elem>(&self, got: Option<E>, want: Option<usize>, what: &str) -> Result<(), String> {
        let got = got.map(|e| e.index(want.unwrap_or(0)));
        if self.what.values && got != want {
            return self.fail(format!("{} returns element {:?} instead of {:?}", what, got, want));
        }
        Ok(())
    }
    fn pulls(&self) -> Result<(), String> {
        let (n, e) = self.pulled.get();
        if self.what.pulls && (n > self.asked || (e > 0 && self.asked <= self.len)) {
            return self.fail(format!(
                "{} elements{} were pulled from a source of {}, but no operation has asked for more than the first {}",
                n,
                if e > 0 { " and the end" } else { "" },
                self.len,
                self.asked
            ));
        }
        Ok(())
    }
    fn hint(&self, h: (usize, Option<usize>)) -> Result<(), String> {
        let left = self.len.saturating_sub(self.here());
        let least = if self.len >= ENDLESS { usize::MAX } else { left };
        if self.what.values && (h.0 > least || h.1.map_or(false, |u| u < left)) {
            return self.fail(format!("size_hint is {:?} with {} elements left", h, left));
        }
        Ok(())
    }

    /// All that is left, as a whole.
    fn rest<E: Elem, B: Iterator<Item = E>>(&self, b: B, how: u32, from: usize, what: &str) -> Result<(), String> {
        let from = from.min(self.len);
        let left = self.len - from;
        match how {
            0 => {
                let n = b.count();
                if n != left {
                    return self.fail(format!("{} counts {} elements instead of {}", what, n, left));
                }
            }
            1 => {
                let got = b.last();
                self.value(got, if left > 0 { Some(self.len - 1) } else { None }, "last")?;
            }
            _ => {
                let got = b.fold(vec![], |mut v, t| {
                    v.push(t.index(from + v.len()));
                    v
                });
                if !got.iter().cloned().eq(from..self.len) {
                    let n = got.iter().cloned().zip(from..self.len).take_while(|(a, b)| a == b).count();
                    return self.fail(format!("{} holds {} elements instead of {}, the same up to {}", what, got.len(), left, n));
                }
            }
        }
        Ok(())
    }

    /// The operations that buffers and cursors have in common.
    fn common<E: Elem, B: Buffer<E>>(&mut self, b: &mut B, op: u32) -> Result<(), String> {
        let p = self.here();
        let len = self.len;
        if op == NEXT {
            self.ask(p + 1);
            let got = b.next();
            if p < len {
                *self.at() += 1;
            }
            self.value(got, read(len, p), "next")
        } else if op >= NTH {
            let n = (op - NTH) as usize;
            self.asked = self.asked.max(p + n + 1);
            self.seen = self.seen.max(p + n + 1);
            let got = b.nth(n);
            let want = read(len, p + n);
            // the iterator contract: all elements up to and including the n-th are consumed
            *self.at() = if p >= len { p } else { (p + n + 1).min(len) };
            self.ask(0);
            self.value(got, want, "nth")
        } else if op >= SKIP {
            let n = (op - SKIP) as usize;
            self.asked = self.asked.max(p + n);
            b.fast_forward(n);
            *self.at() += n;
            Ok(())
        } else if op >= AHEAD {
            let i = (op - AHEAD) as usize;
            self.ask(p + i + 1);
            let got = b.peek_ahead(i);
            self.value(got, read(len, p + i), "peek_ahead")
        } else {
            panic!("harness: operation {}", op)
        }
    }
}

/// Whether all that is left is taken as a whole in the end, and how.
fn whole(ops: &[u32]) -> Option<u32> {
    let n = ops.iter().fold(ops.len() as u32, |n, o| n.wrapping_mul(5).wrapping_add(o % 1021 + (o >> 24)));
    if n % 2 == 1 {
        Some(n / 2 % 4)
    } else {
        None
    }
}

enum Closed {
    Drop,
    Commit(usize),
    End,
}

fn cursor_ops<E: Elem, B: Buffer<E>>(
    cur: &mut Cursor<'_, E, B>,
    ops: &[u32],
    i: &mut usize,
    m: &mut Model,
) -> Result<Closed, String> {
    let level = m.pos.len();
    loop {
        let (p, s) = (m.here(), *m.start.last().unwrap());
        // beyond the end a position may be counted or not
        if m.what.values && p <= m.len && (*cur).position() != p - s {
            return m.fail(format!("a cursor {} elements ahead of its parent has position {}", p - s, (*cur).position()));
        }
        m.hint(cur.size_hint())?;
        if *i >= ops.len() {
            if m.end.is_none() {
                m.end = Some((m.pulled.get().0, m.pulled.get().1 > 0));
                if let (Some(how), true, true) = (whole(ops), m.what.values, m.len < ENDLESS) {
                    m.rest(cur.cursor(), how, p, "a cursor at the end")?;
                }
            }
            return Ok(Closed::End);
        }
        let op = ops[*i];
        m.op = *i;
        *i += 1;
        match op {
            OPEN => {
                let p = m.here();
                m.pos.push(p);
                m.start.push(p);
                let r = {
                    let mut c = cur.cursor();
                    cursor_ops(&mut c, ops, i, m)
                }?;
                if let Closed::End = r {
                    return Ok(Closed::End);
                }
                let p = m.pos.pop().unwrap();
                m.start.pop();
                if let Closed::Commit(n) = r {
                    m.ask(p);
                    cur.fast_forward(n);
                    *m.at() = p;
                }
            }
            DROP => return Ok(Closed::Drop),
            COMMIT => return Ok(Closed::Commit((*cur).position())),
            RESET => {
                if !cur.reset_internal() && m.what.values {
                    return m.fail("reset_internal returns false".into());
                }
                *m.at() = *m.start.last().unwrap();
            }
            op => m.common(cur, op)?,
        }
        assert_eq!(m.pos.len(), level);
        m.pulls()?;
    }
}

fn root_ops<E: Elem, I: Iterator<Item = E>>(mut buf: Buf<I>, ops: &[u32], m: &mut Model) -> Result<(), String> {
    let mut i = 0;
    m.pulls()?;
    while i < ops.len() {
        m.hint(buf.size_hint())?;
        let op = ops[i];
        m.op = i;
        i += 1;
        alloc::peak_from_here();
        if op == OPEN {
            let p = m.here();
            m.pos.push(p);
            m.start.push(p);
            let r = {
                let mut c = buf.cursor();
                cursor_ops(&mut c, ops, &mut i, m)
            }?;
            if let Closed::End = r {
                break;
            }
            let p = m.pos.pop().unwrap();
            m.start.pop();
            if let Closed::Commit(n) = r {
                m.asked = m.asked.max(p);
                buf.fast_forward(n);
                *m.at() = p;
            }
        } else {
            m.common(&mut buf, op)?;
        }
        m.pulls()?;
        m.space()?;
    }
    m.op = ops.len();
    if m.end.is_none() {
        m.end = Some((m.pulled.get().0, m.pulled.get().1 > 0));
    }
    if !m.what.values {
        return Ok(());
    }
    // all that is left, from the buffer itself
    let root = m.pos[0].min(m.len);
    if m.len >= ENDLESS {
        for j in root..root + 40 {
            let got = buf.next();
            m.value(got, read(m.len, j), "at the end next")?;
        }
        return Ok(());
    }
    if let Some(how) = whole(ops) {
        return m.rest(buf, how, root, "at the end the buffer");
    }
    for j in root..=m.len {
        let got = buf.next();
        m.value(got, read(m.len, j), "at the end next")?;
    }
    Ok(())
}

/// How the buffer is made.
const KINDS: usize = 4;
/// What it holds.
const ELEMS: [&str; 5] = ["integers", "elements without a size", "boxes", "elements of 216 bytes", "elements of 5016 bytes"];
fn kind_name(k: usize) -> String {
    let how = ["an iterator", "a buffer with look-ahead", "a cursor of a buffer", "a buffer borrowed by another"][k % KINDS];
    match k / KINDS {
        0 => how.to_string(),
        e => format!("{} over {}", how, ELEMS[e]),
    }
}

/// Runs one history. Returns the state afterwards: positions, elements pulled, end pulled.
pub fn history(what: What, kind: usize, len: usize, ops: &[u32]) -> Result<(Vec<usize>, usize, bool), String> {
    match kind / KINDS {
        0 => history_of::<u32>(what, kind % KINDS, len, ops),
        1 => history_of::<()>(what, kind % KINDS, len, ops),
        2 => history_of::<Box<usize>>(what, kind % KINDS, len, ops),
        3 => history_of::<Wide<Fill<25>>>(what, kind % KINDS, len, ops),
        _ => history_of::<Wide<Fill<625>>>(what, kind % KINDS, len, ops),
    }
}

fn history_of<E: Elem>(what: What, kind: usize, len: usize, ops: &[u32]) -> Result<(Vec<usize>, usize, bool), String> {
    let pulled = Rc::new(Cell::new((0, 0)));
    let src = Src { at: 0, len, pulled: pulled.clone(), _e: std::marker::PhantomData::<E> };
    let size = std::mem::size_of::<E>() + if std::mem::needs_drop::<E>() { 8 } else { 0 };
    let mut m = Model { what, len, pos: vec![0], start: vec![0], asked: 0, pulled, base: 0, size, seen: 0, ahead: 0, end: None, op: 0 };
    m.pos.reserve(64);
    m.start.reserve(64);
    m.base = alloc::held();
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => root_ops(src.into_buf(), ops, &mut m),
        1 => {
            let mut b = src.into_buf();
            b.peek_ahead(1);
            m.ask(2);
            root_ops(Buf::new(b), ops, &mut m)
        }
        2 => {
            let mut b = src.into_buf();
            let c = b.cursor();
            root_ops(c.into_buf(), ops, &mut m)
        }
        _ => {
            let mut b = src.into_buf();
            root_ops((&mut b).into_buf(), ops, &mut m)
        }
    }));
    match r {
        Ok(Ok(())) => {
            let (n, e) = m.end.unwrap();
            Ok((m.pos, n, e))
        }
        Ok(Err(e)) => Err(e),
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            let s = s.unwrap_or_default();
            if s.starts_with("harness") {
                panic!("{}", s);
            }
            Err(format!("operation {} panics: {}", m.op, s))
        }
    }
}

fn ops_at(depth: usize, max_depth: usize, small: &[u32]) -> Vec<u32> {
    let mut v = small.to_vec();
    if depth < max_depth {
        v.push(OPEN);
    }
    if depth > 0 {
        v.extend(&[DROP, COMMIT, RESET]);
    }
    v
}

#[derive(Clone)]
enum Item {
    /// every history of exactly this many operations that starts like this
    All { kind: usize, len: usize, depth: usize, nest: usize, ops: &'static [u32], start: Vec<u32> },
    /// every state reachable with these operations
    States { kind: usize, len: usize, nest: usize, ops: Vec<u32> },
    /// look ahead to c, consume k, skip n, then read everything; directly or through a cursor
    Grid { kind: usize, cached: usize, len: usize, max: usize },
    /// the same around powers of two: with this many cached
    Ladder { kind: usize, near: Vec<u32>, cached: u32, top: u32 },
    /// every history of this many operations that starts like this, over and over
    Lasso { kind: usize, len: usize, size: usize, rounds: usize, start: u32 },
    /// 2^far, less or more by one, skipped in one step with some cached
    Far { far: u32 },
    /// cursors of cursors, this many, each moved by this much
    Tower { kind: usize, height: usize, step: u32 },
}

const FULL: &[u32] = &[NEXT, AHEAD, AHEAD + 1, AHEAD + 3, SKIP, SKIP + 1, SKIP + 2, SKIP + 5, NTH + 1];
const LOOP: &[u32] = &[NEXT, AHEAD, AHEAD + 2, AHEAD + 9, SKIP, SKIP + 1, SKIP + 3, NTH + 1];
const FEW: &[u32] = &[NEXT, AHEAD, AHEAD + 2, SKIP + 1, SKIP + 3];

fn explore(what: What, it: &Item, st: &mut Stats, stop: &dyn Fn() -> bool) -> Result<(), (Vec<u32>, String)> {
    let one = |st: &mut Stats, kind: usize, len: usize, ops: &[u32]| {
        st.execs += 1;
        st.ok += 1;
        crumb::begin(0);
        crumb::set_toks(&[kind as u32, short(len)]);
        crumb::set_toks(ops);
        alloc::reset();
        let r = history(what, kind, len, ops);
        crumb::end();
        r.map_err(|e| {
            let mut t = vec![kind as u32, short(len)];
            t.extend(ops);
            (t, e)
        })
    };
    match it {
        Item::All { kind, len, depth, nest, ops, start } => {
            // depth-first over operation sequences; choices[i] indexes the operations enabled there
            let mut seq = start.clone();
            let nesting = |seq: &[u32]| seq.iter().fold(0usize, |d, o| match *o {
                OPEN => d + 1,
                DROP | COMMIT => d - 1,
                _ => d,
            });
            fn dfs(
                seq: &mut Vec<u32>,
                level: usize,
                depth: usize,
                nest: usize,
                ops: &[u32],
                st: &mut Stats,
                run: &mut dyn FnMut(&mut Stats, &[u32]) -> Result<bool, (Vec<u32>, String)>,
            ) -> Result<bool, (Vec<u32>, String)> {
                st.nodes += 1;
                if seq.len() == depth {
                    st.leaves += 1;
                    return run(st, seq);
                }
                for op in ops_at(level, nest, ops) {
                    st.edges += 1;
                    seq.push(op);
                    let l = match op {
                        OPEN => level + 1,
                        DROP | COMMIT => level - 1,
                        _ => level,
                    };
                    let go = dfs(seq, l, depth, nest, ops, st, run)?;
                    seq.pop();
                    if !go {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            let l = nesting(&seq);
            dfs(&mut seq, l, *depth, *nest, ops, st, &mut |st, s| one(st, *kind, *len, s).map(|_| !stop()))?;
            st.nodes -= st.leaves;
        }
        Item::States { kind, len, nest, ops } => {
            let mut seen: HashSet<(Vec<usize>, usize, bool)> = HashSet::new();
            let mut queue: VecDeque<(Vec<u32>, usize)> = VecDeque::new();
            let first = one(st, *kind, *len, &[])?;
            seen.insert(first);
            queue.push_back((vec![], 0));
            while let Some((h, level)) = queue.pop_front() {
                st.nodes += 1;
                if stop() {
                    return Ok(());
                }
                for op in ops_at(level, *nest, ops) {
                    st.edges += 1;
                    let mut g = h.clone();
                    g.push(op);
                    let s = one(st, *kind, *len, &g)?;
                    st.pumped += 1;
                    // positions are followed a little beyond the end of the source
                    if s.0.iter().any(|p| *p > len + 2) {
                        continue;
                    }
                    let l = s.0.len() - 1;
                    if seen.insert(s) {
                        queue.push_back((g, l));
                    }
                }
            }
        }
        Item::Grid { kind, cached, len, max } => {
            let c = *cached as u32;
            for k in 0..=(*max as u32) {
                for n in 0..=(*max as u32) {
                    for (v, mid) in [vec![SKIP + n], vec![OPEN, SKIP + n, NEXT, COMMIT]].iter().enumerate() {
                        let mut h = vec![];
                        if c > 0 {
                            h.push(AHEAD + c - 1);
                        }
                        for _ in 0..k {
                            h.push(NEXT);
                        }
                        if v == 1 && k > 0 {
                            // consumed in one step instead of one by one
                            h.truncate(h.len() - k as usize);
                            h.push(SKIP + k);
                        }
                        h.extend(mid);
                        h.push(AHEAD);
                        h.push(AHEAD + 7);
                        st.nodes += 1;
                        st.edges += h.len() as u64;
                        st.leaves += 1;
                        one(st, *kind, *len, &h)?;
                    }
                }
                if stop() {
                    return Ok(());
                }
            }
        }
        Item::Ladder { kind, near, cached, top } => {
            for c in &[*cached] {
                for k in near.iter().filter(|k| **k <= 2 * c) {
                    for n in near {
                        for len in [*c, c + 1, c + k, top * 2].iter() {
                            for refill in [0, 1, *k].iter() {
                                let mut h = vec![AHEAD + c - 1, SKIP + k, AHEAD + refill, OPEN, AHEAD + n, SKIP + n, NEXT, COMMIT, NEXT, AHEAD + refill];
                                st.nodes += 1;
                                st.edges += h.len() as u64;
                                st.leaves += 1;
                                one(st, *kind, *len as usize, &h)?;
                                h[7] = DROP;
                                one(st, *kind, *len as usize, &h)?;
                            }
                        }
                    }
                    if stop() {
                        return Ok(());
                    }
                }
            }
        }
        Item::Lasso { kind, len, size, rounds, start } => {
            let mut seqs = vec![(vec![*start], usize::from(*start == OPEN))];
            for _ in 1..*size {
                seqs = seqs
                    .into_iter()
                    .flat_map(|(s, l)| {
                        ops_at(l, 4, LOOP).into_iter().map(move |op| {
                            let mut s = s.clone();
                            s.push(op);
                            (s, match op {
                                OPEN => l + 1,
                                DROP | COMMIT => l - 1,
                                _ => l,
                            })
                        })
                    })
                    .collect();
            }
            for (s, l) in seqs {
                // one more cursor in every round: not as often
                let n = match l {
                    0 => *rounds,
                    _ if what.space => continue,
                    l => (*rounds).min(60 / l),
                };
                let mut h = Vec::with_capacity(n * size);
                (0..n).for_each(|_| h.extend(&s));
                st.nodes += 1;
                st.edges += h.len() as u64;
                st.leaves += 1;
                if let Err((mut t, e)) = one(st, *kind, *len, &h) {
                    // no further than where it fails
                    let at = e.split(|c: char| !c.is_ascii_digit()).find(|s| !s.is_empty()).and_then(|s| s.parse().ok());
                    t.truncate(2 + at.unwrap_or(h.len()) + 1);
                    return Err((t, e));
                }
                if stop() {
                    return Ok(());
                }
            }
        }
        Item::Far { far } => {
            for by in &[(1 << far) - 1, 1 << far, (1 << far) + 1] {
                for cached in &[0, 1, 2, 7, 100] {
                    for (kind, len) in &[(0, ENDLESS), (3, ENDLESS), (1, ENDLESS), (0, *by as usize + 5), (0, *by as usize / 2)] {
                        for skip in &[vec![SKIP + by], vec![NTH + by], vec![OPEN, SKIP + by, COMMIT], vec![OPEN, NEXT, NEXT, SKIP + by, COMMIT]] {
                            let mut h = vec![AHEAD + cached];
                            h.extend(skip);
                            h.extend(&[NEXT, AHEAD + 3, NEXT]);
                            st.nodes += 1;
                            st.edges += h.len() as u64;
                            st.leaves += 1;
                            one(st, *kind, *len, &h)?;
                        }
                    }
                }
            }
        }
        Item::Tower { kind, height, step } => {
            let h = *height;
            let last = h as u32 * step;
            for mv in 0..3 {
                for close in [DROP, COMMIT, RESET].iter() {
                    for first in [0, 1, 7].iter() {
                        let mut ops = vec![SKIP + first];
                        for _ in 0..h {
                            ops.push(OPEN);
                            match mv {
                                0 => (0..*step).for_each(|_| ops.push(NEXT)),
                                1 => ops.push(SKIP + step),
                                _ => ops.extend(&[AHEAD + step, SKIP + step]),
                            }
                        }
                        ops.extend(&[AHEAD, AHEAD + 1, NEXT]);
                        for _ in 0..h {
                            if *close == RESET {
                                ops.extend(&[RESET, AHEAD, DROP]);
                            } else {
                                ops.extend(&[*close, AHEAD]);
                            }
                        }
                        ops.extend(&[NEXT, AHEAD + 3]);
                        for len in [0, first + last - 1, first + last, first + last + 1, first + last + 9].iter() {
                            st.nodes += 1;
                            st.edges += ops.len() as u64;
                            st.leaves += 1;
                            one(st, *kind, *len as usize, &ops)?;
                        }
                    }
                }
                if stop() {
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

fn items(th: bool, space: bool) -> Vec<Item> {
    let mut r = vec![];
    for kind in 0..KINDS {
        // what has been read through a cursor is still ahead of its buffer
        if kind == 2 && space {
            continue;
        }
        for len in &[ENDLESS, 7] {
            for size in 1..=(if th { 5 } else { 4 }) {
                if kind != 0 && size > (if th { 4 } else { 3 }) {
                    continue;
                }
                for start in ops_at(0, 4, LOOP) {
                    let rounds = if space { 1500 } else if size > 3 { 60 } else { 150 };
                    r.push(Item::Lasso { kind, len: *len, size, rounds, start });
                }
            }
        }
    }
    // of other elements
    for e in 1..ELEMS.len() {
        for how in if space { vec![0, 3] } else { vec![0, 1, 2, 3] } {
            for size in 1..=3 {
                for start in ops_at(0, 4, LOOP) {
                    r.push(Item::Lasso { kind: e * KINDS + how, len: ENDLESS, size, rounds: if space { 200 } else { 60 }, start });
                }
            }
        }
    }
    if space {
        // far skips
        for far in 1..=(if th { 20 } else { 16 }) {
            r.push(Item::Far { far });
        }
        return r;
    }
    let (depth, few) = if th { (8, 10) } else { (7, 8) };
    let lens: &[usize] = if th { &[0, 1, 2, 3, 4, 5, 6, 9] } else { &[0, 1, 2, 3, 4, 6] };
    for kind in 0..KINDS {
        for len in 0..=(if th { 12 } else { 7 }) {
            for nest in if kind == 0 { vec![0, 1, 2, 3, 4] } else { vec![2] } {
                let mut ops = vec![NEXT];
                let top = if th { 5 } else { 4 };
                for i in 0..top {
                    ops.extend(&[AHEAD + i, SKIP + i]);
                }
                ops.extend(&[NTH, NTH + 1, NTH + 2, AHEAD + 9, SKIP + 9]);
                let len = if nest == 4 { len.min(if th { 8 } else { 5 }) } else { len };
                r.push(Item::States { kind, len, nest, ops });
            }
        }
    }
    for kind in 0..KINDS {
        for len in lens {
            let d = if kind == 0 { depth } else { depth - 2 };
            for a in ops_at(0, 4, FULL) {
                r.push(Item::All { kind, len: *len, depth: d, nest: 4, ops: FULL, start: vec![a] });
            }
            if kind == 0 {
                for a in ops_at(0, 4, FEW) {
                    r.push(Item::All { kind, len: *len, depth: few, nest: 4, ops: FEW, start: vec![a] });
                }
            }
        }
    }
    let (c, max, len) = if th { (140, 150, 330) } else { (40, 70, 120) };
    for cached in 0..=c {
        r.push(Item::Grid { kind: 0, cached, len, max });
        if cached % 8 == 3 {
            r.push(Item::Grid { kind: 0, cached, len: cached + 10, max: max.min(cached + 15) });
        }
    }
    let around = |bits: &[u32]| -> Vec<u32> { bits.iter().flat_map(|b| vec![(1 << b) - 1, 1 << b, (1 << b) + 1]).collect() };
    for near in if th {
        vec![around(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), around(&[2, 8, 12, 16, 20])]
    } else {
        vec![around(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), around(&[3, 8, 12, 16])]
    } {
        for c in &near {
            r.push(Item::Ladder { kind: 0, top: *near.last().unwrap(), cached: *c, near: near.clone() });
        }
    }
    for height in (1..=(if th { 130 } else { 40 })).chain(vec![257]) {
        for step in 1..=(if th { 5 } else { 3 }) {
            r.push(Item::Tower { kind: 0, height, step });
        }
    }
    // the same, not as far, of other elements
    for e in 1..ELEMS.len() {
        let large = e == 4;
        for how in 0..KINDS {
            let kind = e * KINDS + how;
            for len in 0..=(if th { 7 } else { 4 }) {
                let mut ops = vec![NEXT];
                for i in 0..4 {
                    ops.extend(&[AHEAD + i, SKIP + i]);
                }
                ops.extend(&[NTH + 1, NTH + 2, SKIP + 9]);
                for nest in if how == 0 { 0..=2 } else { 1..=1 } {
                    r.push(Item::States { kind, len, nest, ops: ops.clone() });
                }
            }
            for len in &[0, 2, 5] {
                let d = if th { 6 } else { 5 } - usize::from(how > 0);
                for a in ops_at(0, 3, FULL) {
                    r.push(Item::All { kind, len: *len, depth: d, nest: 3, ops: FULL, start: vec![a] });
                }
            }
        }
        let kind = e * KINDS;
        for cached in 0..=(if th { 40 } else { 20 }) {
            r.push(Item::Grid { kind, cached, len: 60, max: if th { 40 } else { 24 } });
        }
        let bits: &[u32] = match (large, th) {
            (false, false) => &[0, 3, 6, 8],
            (false, true) => &[0, 2, 4, 6, 8, 10, 12],
            (true, false) => &[0, 4],
            (true, true) => &[0, 3, 6, 8],
        };
        let near = around(bits);
        for c in near.iter().filter(|c| **c > 0) {
            r.push(Item::Ladder { kind, top: *near.last().unwrap(), cached: *c, near: near.clone() });
        }
        for height in [1, 2, 3, 8, 21].iter() {
            for step in 1..=3 {
                r.push(Item::Tower { kind, height: *height, step });
            }
        }
    }
    r
}

pub fn main(property: &'static str) {
    let what = What { values: property == "C01", pulls: property == "C02", space: property == "C23" };
    let a = args();
    if a.list {
        println!("history\thistories of buffer operations");
        return;
    }
    silence();
    if let Some(c) = &a.crumb {
        crumb::open(c);
        alloc::watchdog(300);
    }
    if let Some((_, t)) = a.replay {
        let code = std::thread::spawn(move || {
            crumb::begin(0);
            crumb::set_toks(&t);
            let ops = &t[2..];
            println!("a buffer over {} of {} elements: {}", kind_name(t[0] as usize), count(t[1]), ops.iter().map(|o| show(*o)).collect::<Vec<_>>().join("; "));
            let len = if t[1] == u32::MAX { ENDLESS } else { t[1] as usize };
            match history(what, t[0] as usize, len, ops) {
                Ok(_) => {
                    println!("held");
                    0
                }
                Err(e) => {
                    println!("failed: {}", e);
                    1
                }
            }
        });
        std::process::exit(code.join().unwrap_or(2));
    }
    let list = Arc::new(items(a.thorough, what.space));
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let result =
        Arc::new(Mutex::new(Report { stats: Stats::default(), violations: vec![], samples: vec![], notes: vec![] }));
    let threads: Vec<_> = (0..8)
        .map(|w| {
            let (list, next, stop, result) = (list.clone(), next.clone(), stop.clone(), result.clone());
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    crumb::worker(w);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= list.len() || stop.load(SeqCst) {
                            return;
                        }
                        let mut st = Stats::default();
                        let r = explore(what, &list[i], &mut st, &|| stop.load(SeqCst));
                        st.closed = matches!(list[i], Item::States { .. });
                        st.len = match &list[i] {
                            Item::All { len, .. } | Item::States { len, .. } | Item::Grid { len, .. } => *len,
                            Item::Lasso { size, rounds, .. } => size * rounds,
                            Item::Far { far } => 1 << far,
                            Item::Ladder { top, .. } => 2 * *top as usize,
                            Item::Tower { height, step, .. } => height * *step as usize + 16,
                        };
                        let mut res = result.lock().unwrap();
                        res.stats.add(&st);
                        if i % (list.len() / 12 + 1) == 0 {
                            res.samples.push(match &list[i] {
                                Item::All { kind, len, depth, nest, start, .. } => format!(
                                    "all {} histories of {} operations over {} of {} elements, cursors nested up to {}, first {}",
                                    st.leaves, depth, kind_name(*kind), len, nest, show(start[0])
                                ),
                                Item::States { kind, len, nest, ops } => format!(
                                    "all {} reachable states over {} of {} elements, cursors nested up to {}, {} operations from each ({} transitions)",
                                    st.nodes, kind_name(*kind), len, nest, ops.len(), st.edges
                                ),
                                Item::Lasso { kind, len, size, rounds, start } => format!(
                                    "all {} histories of {} operations, first {}, over and over {} times, over {} of {} elements",
                                    st.leaves, size, show(*start), rounds, kind_name(*kind), len
                                ),
                                Item::Grid { kind, cached, len, max } => format!("{}: {} cached of {}: all pairs consumed, skipped up to {}", kind_name(*kind), cached, len, max),
                                Item::Far { far } => format!("skips of 2^{}", far),
                                Item::Ladder { cached, top, kind, .. } => format!("{}: {} cached, amounts next to powers of two up to {}", kind_name(*kind), cached, top),
                                Item::Tower { kind, height, step } => format!("{}: {} cursors of cursors, each moved by {}", kind_name(*kind), height, step),
                            });
                        }
                        if let Err((toks, e)) = r {
                            let msg = format!(
                                "a buffer over {} of {} elements: {}\n  {}",
                                kind_name(toks[0] as usize), count(toks[1]),
                                toks[2..].iter().map(|o| show(*o)).collect::<Vec<_>>().join("; "), e
                            );
                            res.violations.push(Violation { prog: "history".into(), toks: toks as Vec<Tok>, msg });
                            if res.violations.len() >= 3 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    let mut fine = true;
    for t in threads {
        if let Err(e) = t.join() {
            fine = false;
            eprintln!("worker failed: {:?}", e.downcast_ref::<String>());
        }
    }
    let mut r = result.lock().unwrap();
    r.violations.sort_by_key(|v| v.toks.len());
    if let Some(o) = &a.out {
        write_report(o, &r);
    }
    for v in &r.violations {
        println!("{}", v.msg);
    }
    println!("{}: {} states, {} transitions, {} histories, {} executions", property, r.stats.nodes, r.stats.edges, r.stats.leaves, r.stats.execs);
    std::process::exit(if !fine {
        2
    } else if r.violations.is_empty() {
        0
    } else {
        1
    });
}
