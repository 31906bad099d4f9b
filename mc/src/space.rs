//! Reading on and on: what is held in memory after each round of a loop that parses, peeks or
//! skips over a stream that repeats itself for ever, and how much a single parse takes.
use crate::explore::Stats;
use crate::run::{args, silence, write_report, Cfg, Prog, Report, Violation, STACK};
use crate::tape::{Livelock, Tok, TokT};
use crate::val::show_toks;
use crate::{alloc, crumb, prims, sent};
use nommy::{Buffer, IntoBuf, Parse};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// A stream: `first`, then `period` over and over, of `len` tokens in all (or for ever).
/// Without a period: all words over `first`, one after another, so that nothing comes again.
pub struct Walk<'a> {
    pub how: usize,
    pub first: &'a [Tok],
    pub period: &'a [Tok],
    pub len: Option<usize>,
    pub rounds: usize,
}

pub const HOWS: [&str; 7] = [
    "parse, and next() if that fails",
    "parse, then next()",
    "peek, then next()",
    "parse with a cursor, then next()",
    "parse",
    "a parse of a new source",
    "parse_terminated of a new source",
];

#[derive(Default, Debug)]
pub struct Walked {
    /// bytes held after each round, and at most during it, more than before the first
    held: Vec<isize>,
    peak: Vec<isize>,
    /// elements pulled from the source until then
    pulled: Vec<usize>,
    ok: usize,
    /// why it ended early
    panicked: Option<String>,
    swallowed: bool,
}

/// More than this for one round, and a stream counts as one that is read for ever.
const MUCH: usize = 700;

struct Stream<'a, T> {
    first: &'a [Tok],
    period: &'a [Tok],
    at: usize,
    len: Option<usize>,
    pulled: Rc<Cell<usize>>,
    round: Rc<Cell<usize>>,
    /// the word under way and its length; what has been read of it
    word: [u8; 32],
    size: usize,
    read: usize,
    _t: std::marker::PhantomData<T>,
}
impl<'a, T: TokT> Iterator for Stream<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.len {
            Some(n) if self.at >= n => return None,
            None if self.at > self.round.get() + MUCH => std::panic::panic_any(Livelock),
            _ => (),
        }
        let t = if self.period.is_empty() {
            if self.read == self.size {
                self.onward();
            }
            self.read += 1;
            self.first[self.word[self.read - 1] as usize]
        } else {
            match self.first.get(self.at) {
                Some(t) => *t,
                None => self.period[(self.at - self.first.len()) % self.period.len()],
            }
        };
        self.at += 1;
        self.pulled.set(self.at);
        Some(T::from_tok(t))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.len {
            Some(n) => (n - self.at, Some(n - self.at)),
            None => (usize::MAX, None),
        }
    }
}

impl<'a, T> Stream<'a, T> {
    /// To the `n`-th word.
    fn goto(&mut self, mut n: usize) {
        let base = self.first.len();
        let (mut size, mut of) = (0, 1);
        while n >= of {
            n -= of;
            of *= base;
            size += 1;
        }
        self.size = size;
        for i in (0..size).rev() {
            self.word[i] = (n % base) as u8;
            n /= base;
        }
        self.read = 0;
    }

    /// On to the next word.
    fn onward(&mut self) {
        self.read = 0;
        for i in (0..self.size).rev() {
            self.word[i] += 1;
            if (self.word[i] as usize) < self.first.len() {
                return;
            }
            self.word[i] = 0;
        }
        self.size += 1;
    }
}

pub fn walk<P, T>(w: &Walk<'_>) -> Walked
where
    P: Parse<T>,
    T: TokT,
{
    let n = w.rounds;
    let mut r = Walked { held: Vec::with_capacity(n), peak: Vec::with_capacity(n), pulled: Vec::with_capacity(n), ..Walked::default() };
    let (pulled, round) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let source = |n: usize| {
        let mut s = Stream::<T> {
            first: w.first,
            period: w.period,
            at: 0,
            len: w.len,
            pulled: pulled.clone(),
            round: round.clone(),
            word: [0; 32],
            size: 0,
            read: 0,
            _t: std::marker::PhantomData,
        };
        if w.period.is_empty() {
            s.goto(n);
        }
        s
    };
    let base = alloc::held();
    let e = catch_unwind(AssertUnwindSafe(|| {
        let mut b = source(0).into_buf();
        for k in 0..n {
            alloc::reset();
            alloc::peak_from_here();
            round.set(pulled.get());
            let ok = match w.how {
                0 => P::parse(&mut b).is_ok() || {
                    b.next();
                    false
                },
                1 => {
                    let ok = P::parse(&mut b).is_ok();
                    b.next();
                    ok
                }
                2 => {
                    let ok = P::peek(&mut b);
                    b.next();
                    ok
                }
                3 => {
                    let ok = P::parse(&mut b.cursor()).is_ok();
                    b.next();
                    ok
                }
                4 => P::parse(&mut b).is_ok(),
                5 => {
                    round.set(0);
                    nommy::parse::<P, _>(source(k)).is_ok()
                }
                _ => {
                    round.set(0);
                    nommy::parse_terminated::<P, _>(source(k)).is_ok()
                }
            };
            r.ok += usize::from(ok);
            r.held.push(alloc::held() - base);
            r.peak.push(alloc::peak() - base);
            r.pulled.push(pulled.get());
        }
    }));
    if let Err(p) = e {
        if p.is::<Livelock>() {
            r.swallowed = true;
        } else {
            r.panicked = Some(crate::run::show(&crate::obs::panic_res(p)));
        }
    }
    r
}

/// Bytes that may always be held, and per element looked at.
const ALWAYS: usize = 16 << 10;
const EACH: usize = 1 << 10;

/// What is wrong with it.
fn judge(w: &Walk<'_>, r: &Walked) -> Option<String> {
    if r.held.is_empty() {
        return None;
    }
    // a single parse: in proportion to what it looked at
    let all = if w.how >= 5 { r.held.len() } else { 1 };
    for i in 0..all {
        let may = ALWAYS + EACH * (r.pulled[i] + 1);
        if r.peak[i] > may as isize {
            return Some(format!("round {} takes {} bytes at a time, and {} elements have been read", i + 1, r.peak[i], r.pulled[i]));
        }
    }
    // as the stream repeats itself, so does what is needed
    let n = r.held.len();
    if n < w.rounds {
        return None;
    }
    for (v, what) in [(&r.held, "are held after"), (&r.peak, "are held in")].iter() {
        if w.period.is_empty() && what.ends_with("in") {
            // the words differ, and so may what they take
            continue;
        }
        let early = (*v[..n / 4].iter().max().unwrap()).max(0);
        let late = v[n / 2..].iter().enumerate().max_by_key(|x| x.1).unwrap();
        let slack = if w.period.is_empty() { if w.how < 5 { 4096 } else { 0 } } else { 64 + 16 * w.period.len() };
        if *late.1 > 2 * early + slack as isize {
            return Some(format!(
                "{} bytes {} round {}, at most {} in the first {}: {} more in every round",
                late.1, what, n / 2 + late.0 + 1, early, n / 4,
                (*late.1 - v[n / 4]) / (n / 2 + late.0 - n / 4) as isize
            ));
        }
    }
    None
}

const ROUNDS: usize = 240;

fn run(p: &Prog, how: usize, first: &[Tok], period: &[Tok], th: bool, st: &mut Stats) -> Result<(), String> {
    let walk = p.walk.expect("walk");
    let rounds = if th { 2 * ROUNDS } else { ROUNDS };
    let rounds = if period.is_empty() { 4 * rounds } else { rounds };
    let mut w = Walk { how, first, period, len: None, rounds };
    let text = |w: &Walk<'_>, s: String| -> String {
        format!(
            "{}, over and over, of a stream {}({}){}: {}",
            HOWS[how], show_toks(first), if period.is_empty() { "all words of these".into() } else { show_toks(period) },
            match w.len {
                None => " for ever".to_string(),
                Some(n) => format!(" up to {} elements", n),
            },
            s
        )
    };
    // what a program allocates once is not counted
    let mut endless = walk(&w);
    if how >= 5 {
        endless = walk(&w);
    }
    st.execs += endless.held.len() as u64;
    if let Some(e) = judge(&w, &endless) {
        return Err(text(&w, e));
    }
    st.ok += u64::from(endless.ok > 0);
    if endless.swallowed || endless.panicked.is_some() || how >= 5 {
        let unit = period.len().max(1);
        w.len = Some(first.len() + unit * if endless.swallowed { 600 / unit } else { 2 });
        let ended = walk(&w);
        st.execs += ended.held.len() as u64;
        if let Some(e) = judge(&w, &ended) {
            return Err(text(&w, e));
        }
        if let (Some(a), None) = (&endless.panicked, &ended.panicked) {
            if ended.held.len() > endless.held.len() + 1 {
                w.len = None;
                return Err(text(&w, format!("panics ({}), and does not if the stream is known to end", a)));
            }
        }
    }
    Ok(())
}

fn words(p: &Prog, th: bool) -> Vec<(Vec<Tok>, Vec<Tok>)> {
    let mut periods: Vec<Vec<Tok>> = vec![];
    let most = if th { 4 } else { 3 };
    let mut level: Vec<Vec<Tok>> = vec![vec![]];
    for _ in 0..most {
        let next: Vec<Vec<Tok>> = level.iter().flat_map(|w| p.alphabet.iter().map(move |t| {
            let mut w = w.clone();
            w.push(*t);
            w
        })).collect();
        if periods.len() + next.len() > if th { 700 } else { 60 } {
            break;
        }
        periods.extend(next.iter().cloned());
        level = next;
    }
    let mut r: Vec<(Vec<Tok>, Vec<Tok>)> = periods.iter().map(|w| (vec![], w.clone())).collect();
    for t in &p.alphabet {
        for w in periods.iter().filter(|w| w.len() == 1 && w[0] != *t) {
            r.push((vec![*t], w.clone()));
        }
    }
    let sentences = sent::Gen::new(&p.alphabet, p.sentences.0.max(1), if th { 40 } else { 10 }).of(&(p.grammar)());
    for s in sentences {
        if s.is_empty() || s.len() > if th { 60 } else { 20 } || s.len() >= p.longest {
            continue;
        }
        // a sentence, all but its last token, and a sentence with something else behind it
        if s.len() > 1 {
            r.push((vec![], s[..s.len() - 1].to_vec()));
        }
        for t in &p.alphabet {
            let mut w = s.clone();
            w.push(*t);
            r.push((vec![], w));
        }
        r.push((vec![], s));
    }
    r.sort();
    r.dedup();
    // two by two, of a large alphabet only neighbours
    for (i, a) in p.alphabet.iter().enumerate() {
        for b in p.alphabet[i + 1..].iter().take(if p.alphabet.len() > 10 { 1 } else { 10 }) {
            r.push((vec![*a, *b], vec![]));
        }
    }
    if p.alphabet.len() > 1 {
        r.push((p.alphabet.clone(), vec![]));
    }
    r
}

fn show(w: &(Vec<Tok>, Vec<Tok>), how: usize) -> Vec<Tok> {
    let mut c = vec![how as Tok, w.0.len() as Tok];
    c.extend(&w.0);
    c.extend(&w.1);
    c
}

pub fn main(cfg: Cfg, progs: Vec<Prog>) {
    let a = args();
    if a.list {
        for p in &progs {
            println!("{}\t{}", p.id, p.text);
        }
        return;
    }
    silence();
    if let Some(c) = &a.crumb {
        crumb::open(c);
        alloc::watchdog(if a.thorough { 3000 } else { 300 });
    }
    let th = a.thorough;
    let progs = Arc::new(progs);
    if let Some((id, c)) = a.replay {
        let code = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let i = progs.iter().position(|p| p.id == id).expect("no such program");
                let p = &progs[i];
                println!("{}", p.text);
                prims::MAX.with(|m| m.set(p.max));
                crumb::begin(i);
                crumb::set_toks(&c);
                let k = 2 + c[1] as usize;
                let r = run(p, c[0] as usize, &c[2..k], &c[k..], th, &mut Stats::default());
                crumb::end();
                match r {
                    Ok(()) => {
                        println!("held");
                        0
                    }
                    Err(e) => {
                        println!("failed: {}", e);
                        1
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2);
        std::process::exit(code);
    }
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let result =
        Arc::new(Mutex::new(Report { stats: Stats::default(), violations: vec![], samples: vec![], notes: vec![] }));
    let threads: Vec<_> = (0..a.jobs)
        .map(|n| {
            let (next, stop, result, progs) = (next.clone(), stop.clone(), result.clone(), progs.clone());
            let only = a.only.clone();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    crumb::worker(n);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= progs.len() || stop.load(SeqCst) {
                            return;
                        }
                        let p = &progs[i];
                        if only.as_ref().map_or(false, |o| !p.id.contains(o.as_str())) {
                            continue;
                        }
                        prims::MAX.with(|m| m.set(p.max));
                        let mut st = Stats { programs: 1, ..Stats::default() };
                        let list = words(p, th);
                        let mut bad = None;
                        'p: for w in &list {
                            for how in 0..HOWS.len() {
                                crumb::begin(i);
                                let code = show(w, how);
                                crumb::set_toks(&code);
                                alloc::reset();
                                let r = run(p, how, &w.0, &w.1, th, &mut st);
                                crumb::end();
                                st.leaves += 1;
                                st.len = st.len.max(w.0.len() + w.1.len());
                                if let Err(e) = r {
                                    bad = Some((code, e));
                                    break 'p;
                                }
                                if stop.load(SeqCst) {
                                    return;
                                }
                            }
                        }
                        // every round of a loop is one step
                        st.edges = st.execs;
                        st.nodes = st.execs - st.leaves.min(st.execs);
                        let mut r = result.lock().unwrap();
                        r.stats.add(&st);
                        if i % (progs.len() / 6 + 1) == 0 {
                            r.samples.push(format!("{}: {} streams, {} loops, {} rounds; {}", p.id, list.len(), st.leaves, st.execs, p.text.replace('\n', " ")));
                        }
                        if let Some((toks, e)) = bad {
                            r.violations.push(Violation { prog: p.id.clone(), toks, msg: format!("{}\n  {}", p.text, e) });
                            if r.violations.len() >= 3 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    let mut fine = true;
    for t in threads {
        if let Err(e) = t.join() {
            fine = false;
            eprintln!("worker failed: {}", crate::run::show(&crate::obs::panic_res(e)));
        }
    }
    let mut r = result.lock().unwrap();
    r.violations.sort_by(|a, b| (a.toks.len(), &a.prog).cmp(&(b.toks.len(), &b.prog)));
    if let Some(o) = &a.out {
        write_report(o, &r);
    }
    for v in &r.violations {
        println!("{} {:?}: {}", v.prog, v.toks, v.msg);
    }
    println!("{}: {} programs, {} loops, {} rounds", cfg.property, r.stats.programs, r.stats.leaves, r.stats.execs);
    std::process::exit(if !fine {
        2
    } else if r.violations.is_empty() {
        0
    } else {
        1
    });
}
