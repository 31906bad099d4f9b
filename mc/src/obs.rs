//! Runs the real code once in a given reading situation and observes it through its public API.
use crate::live;
use crate::tape::{Livelock, Src, TapeRc, Tok, TokT};
use crate::val::{ToVal, Val};
use nommy::{Buffer, IntoBuf, Parse};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Where the parser reads from.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sit {
    /// elements consumed from the root buffer before
    pub junk: usize,
    /// elements looked ahead at, beyond the current position, before
    pub cache: usize,
    /// cursors between the root buffer and the parser
    pub depth: usize,
    /// elements each cursor has read before
    pub offs: usize,
}
pub const ROOT: Sit = Sit { junk: 0, cache: 0, depth: 0, offs: 0 };
pub const CUR: Sit = Sit { junk: 0, cache: 0, depth: 1, offs: 1 };

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok(Val),
    Err(Vec<String>),
    Peek(bool),
    Panic(String),
    Livelock,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub res: Res,
    /// elements consumed, as seen by what remains / by the cursor's position
    pub consumed: usize,
    /// what remains to be read, here and in all parents, is what it should be
    pub rest: Result<(), String>,
    /// tape elements asked of the source (a read at its end counts as one)
    pub pulled: usize,
    /// live tracked values when the call returned, and after everything was dropped
    pub live_ret: usize,
    pub live_end: usize,
    pub faults: Vec<String>,
}

fn run_on<P, T, B>(b: &mut B, peek: bool, live_ret: &mut usize) -> Res
where
    P: Parse<T> + ToVal,
    T: TokT,
    B: Buffer<T>,
{
    let before = live::count();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if peek {
            let r = P::peek(b);
            (live::count(), Res::Peek(r))
        } else {
            match P::parse(b) {
                Ok(p) => {
                    let n = live::count();
                    (n, Res::Ok(p.to_val()))
                }
                Err(e) => (live::count(), Res::Err(e.chain().map(|c| c.to_string()).collect())),
            }
        }
    }));
    match r {
        Ok((n, r)) => {
            *live_ret = n.wrapping_sub(before);
            r
        }
        Err(p) => {
            *live_ret = live::count().wrapping_sub(before);
            panic_res(p)
        }
    }
}

pub fn panic_res(p: Box<dyn std::any::Any + Send>) -> Res {
    if p.is::<Livelock>() {
        return Res::Livelock;
    }
    Res::Panic(if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(payload)".into()
    })
}

struct Level<'a> {
    tape: &'a TapeRc,
    sit: Sit,
    junk: &'a [Tok],
    pulled: &'a dyn Fn() -> usize,
}

struct Got {
    res: Res,
    consumed: usize,
    rest: Result<(), String>,
    pulled: usize,
    live_ret: usize,
}

fn cmp(what: &str, got: &[Tok], want: &[Tok]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!(
            "{} reads on with {} instead of {}",
            what,
            crate::val::show_toks(got),
            crate::val::show_toks(want)
        ))
    }
}

/// Elements left in `b`, at most `cap`.
fn drain<T: TokT, B: Buffer<T>>(b: &mut B, cap: usize) -> Vec<Tok> {
    let mut v = vec![];
    while v.len() <= cap {
        match b.next() {
            Some(t) => v.push(t.into_tok()),
            None => break,
        }
    }
    v
}

fn at_level<P, T, B>(lv: &Level<'_>, b: &mut B, depth: usize) -> Got
where
    P: Parse<T> + ToVal,
    T: TokT,
    B: Buffer<T>,
{
    let sit = lv.sit;
    let below = sit.junk + depth * sit.offs;
    if depth == sit.depth {
        if sit.cache > 0 {
            b.peek_ahead(sit.cache - 1);
        }
        let mut live_ret = 0;
        let res = run_on::<P, T, B>(b, lv.peek(), &mut live_ret);
        let pulled = (lv.pulled)();
        lv.tape.borrow_mut().frozen = true;
        // what is left must be a suffix of the tape
        let have = lv.tape.borrow().toks.clone();
        let left = drain(b, have.len() + 4);
        let (consumed, rest) = if left.len() <= have.len() {
            let k = have.len() - left.len();
            (k, cmp("the buffer", &left, &have[k..]))
        } else {
            (0, cmp("the buffer", &left, &have))
        };
        return Got { res, consumed, rest, pulled, live_ret };
    }
    let mut got;
    {
        let mut cur = b.cursor();
        for i in 0..sit.offs {
            let t = cur.next().map(TokT::into_tok);
            assert_eq!(t, Some(lv.junk[below + i]), "harness: junk");
        }
        got = at_cursor::<P, T, B::CursorBase>(lv, &mut cur, depth + 1);
    }
    // the parent has not moved
    let have = lv.tape.borrow().toks.clone();
    let mut want = lv.junk[below..].to_vec();
    want.extend(&have);
    let left = drain(b, want.len() + 4);
    if got.rest.is_ok() {
        got.rest = cmp("the parent buffer", &left, &want);
    }
    got
}

fn at_cursor<P, T, B>(lv: &Level<'_>, cur: &mut nommy::Cursor<'_, T, B>, depth: usize) -> Got
where
    P: Parse<T> + ToVal,
    T: TokT,
    B: Buffer<T>,
{
    let sit = lv.sit;
    let below = sit.junk + depth * sit.offs;
    if depth == sit.depth {
        if sit.cache > 0 {
            cur.peek_ahead(sit.cache - 1);
        }
        let mut live_ret = 0;
        let before = (*cur).position();
        let res = run_on::<P, T, _>(cur, lv.peek(), &mut live_ret);
        let pulled = (lv.pulled)();
        lv.tape.borrow_mut().frozen = true;
        let consumed = (*cur).position().wrapping_sub(before);
        let have = lv.tape.borrow().toks.clone();
        let ok = matches!(res, Res::Ok(_) | Res::Peek(true));
        let left = drain(cur, have.len() + 4);
        let rest = if consumed <= have.len() {
            cmp("the cursor", &left, &have[consumed..])
        } else if ok {
            Err(format!("the cursor's position moved by {} of {} elements", consumed, have.len()))
        } else {
            Ok(())
        };
        return Got { res, consumed, rest, pulled, live_ret };
    }
    let mut got;
    {
        let mut c2 = cur.cursor();
        for i in 0..sit.offs {
            let t = c2.next().map(TokT::into_tok);
            assert_eq!(t, Some(lv.junk[below + i]), "harness: junk");
        }
        got = at_cursor::<P, T, B>(lv, &mut c2, depth + 1);
    }
    let have = lv.tape.borrow().toks.clone();
    let mut want = lv.junk[below..].to_vec();
    want.extend(&have);
    if (*cur).position() != sit.offs && got.rest.is_ok() {
        got.rest = Err(format!("the parent cursor moved to {}", (*cur).position()));
    }
    let left = drain(cur, want.len() + 4);
    if got.rest.is_ok() {
        got.rest = cmp("the parent cursor", &left, &want);
    }
    got
}

thread_local! {
    pub static PEEK: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
impl<'a> Level<'a> {
    fn peek(&self) -> bool {
        PEEK.with(|p| p.get())
    }
}

/// Tokens in front of the ones under test, different from place to place.
pub fn junk<T: TokT>(tape: &TapeRc, n: usize) -> Vec<Tok> {
    let a = tape.borrow().alphabet.clone();
    (0..n).map(|i| if a.is_empty() { T::JUNK } else { a[i % a.len()] }).collect()
}

pub fn observe<P, T>(sit: Sit, peek: bool, tape: &TapeRc) -> Obs
where
    P: Parse<T> + ToVal,
    T: TokT,
{
    live::reset();
    PEEK.with(|p| p.set(peek));
    let junk = junk::<T>(tape, sit.junk + sit.depth * sit.offs);
    let src: Src<T> = Src::new(tape, junk.clone());
    let stats = src.stats();
    let pulled = move || stats.get().0;
    let got;
    {
        let mut root = src.into_buf();
        for i in 0..sit.junk {
            let t = root.next().map(TokT::into_tok);
            assert_eq!(t, Some(junk[i]), "harness: junk");
        }
        let lv = Level { tape, sit, junk: &junk, pulled: &pulled };
        got = at_level::<P, T, _>(&lv, &mut root, 0);
    }
    tape.borrow_mut().frozen = false;
    Obs {
        res: got.res,
        consumed: got.consumed,
        rest: got.rest,
        pulled: got.pulled,
        live_ret: got.live_ret,
        live_end: live::count(),
        faults: live::faults(),
    }
}

/// How `nommy::parse` and `nommy::parse_terminated` are given their input.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    /// the environment itself, lazily
    Source,
    /// a vector, by value
    Owned,
    /// a borrowed slice, cloned element by element
    Cloned,
    /// a buffer, partly looked ahead at before
    Buffer,
    /// a mutable reference to a buffer
    BufferRef,
    /// a chain of two adapters
    Chain,
}
/// What is seen of a call of an entry point.
pub struct Entered {
    pub res: Res,
    /// elements pulled from the source, its end counting as one (if it is the environment)
    pub pulled: usize,
    pub live_end: usize,
    pub faults: Vec<String>,
}
pub const ENTRIES: [Entry; 6] =
    [Entry::Source, Entry::Owned, Entry::Cloned, Entry::Buffer, Entry::BufferRef, Entry::Chain];

pub fn entry<P, T>(kind: Entry, terminated: bool, tape: &TapeRc) -> Entered
where
    P: Parse<T> + ToVal,
    T: TokT,
{
    fn go<P, T, I>(i: I, terminated: bool) -> Res
    where
        P: Parse<T> + ToVal,
        T: TokT,
        I: IntoBuf,
        I::Iter: Iterator<Item = T>,
    {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = if terminated {
                nommy::parse_terminated::<P, I>(i)
            } else {
                nommy::parse::<P, I>(i)
            };
            match r {
                Ok(p) => Res::Ok(p.to_val()),
                Err(e) => Res::Err(e.chain().map(|c| c.to_string()).collect()),
            }
        }));
        r.unwrap_or_else(panic_res)
    }
    let known = || -> Vec<T> { tape.borrow().toks.iter().map(|t| T::from_tok(*t)).collect() };
    live::reset();
    let pulled;
    let r = {
        let src: Src<T> = Src::new(tape, vec![]);
        let stats = src.stats();
        let r = match kind {
            Entry::Source => go::<P, T, _>(src, terminated),
            Entry::Owned => go::<P, T, _>(known(), terminated),
            Entry::Cloned => {
                let v = known();
                go::<P, T, _>(v.iter().cloned(), terminated)
            }
            Entry::Buffer => {
                let mut b = src.into_buf();
                b.peek_ahead(1);
                go::<P, T, _>(b, terminated)
            }
            Entry::BufferRef => {
                let mut b = src.into_buf();
                b.peek_ahead(0);
                go::<P, T, _>(&mut b, terminated)
            }
            Entry::Chain => {
                let v = known();
                let h = v.len() / 2;
                go::<P, T, _>(v[..h].iter().cloned().chain(v[h..].iter().map(Clone::clone)), terminated)
            }
        };
        pulled = stats.get().0;
        r
    };
    Entered { res: r, pulled, live_end: live::count(), faults: live::faults() }
}
