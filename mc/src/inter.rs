//! Parses one after another, inside one another and on several threads at once: whatever goes
//! on besides, each must give what the reference model says it gives by itself.
//!
//! Every history starts in a process of its own (a fork of one that has not parsed yet), so
//! that what a process does first is explored as well.
use crate::obs::*;
use crate::run::{against_spec, args, json, show, silence, Cfg, Prog, Report, Violation, STACK};
use crate::spec::{Cx, Out};
use crate::tape::{on_read, Tape, TapeRc, Tok};
use crate::val::show_toks;
use crate::{alloc, explore::Stats, prims, sent};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    On(Sit, bool),
    /// through `nommy::parse` or `nommy::parse_terminated`
    By(Entry, bool),
}

/// One parse: a program, its input, and what it has to give.
#[derive(Clone)]
struct Item {
    prog: usize,
    toks: Vec<Tok>,
    how: How,
    want: Out,
}

struct Bench<'a> {
    progs: &'a [Prog],
    items: Vec<Item>,
}

fn tape(toks: &[Tok]) -> TapeRc {
    Rc::new(RefCell::new(Tape::fixed(toks)))
}

impl<'a> Bench<'a> {
    fn text(&self, i: usize) -> String {
        let it = &self.items[i];
        let how = match it.how {
            How::On(s, peek) => format!("{} {}", if peek { "peek" } else { "parse" }, crate::run::show_sit(s)),
            How::By(e, t) => format!("{} of {:?}", if t { "nommy::parse_terminated" } else { "nommy::parse" }, e),
        };
        format!("[{}] {} of {} with {}", i, how, show_toks(&it.toks), self.progs[it.prog].text.replace('\n', " "))
    }

    /// Runs one parse and compares.
    fn one(&self, i: usize) -> Result<(), String> {
        let it = &self.items[i];
        let p = &self.progs[it.prog];
        let (max, peeking) = (prims::MAX.with(|m| m.replace(p.max)), PEEK.with(|p| p.get()));
        alloc::reset();
        let t = tape(&it.toks);
        let r = match it.how {
            How::On(sit, peek) => against_spec(&it.want, &(p.observe)(sit, peek, &t), peek),
            How::By(e, terminated) => {
                let got = (p.entry.expect("entry"))(e, terminated, &t).res;
                match (&it.want, &got) {
                    (Out::Ok(v, n), Res::Ok(w)) if v == w && (!terminated || *n == it.toks.len()) => Ok(()),
                    (Out::Ok(_, n), Res::Err(_)) if terminated && *n < it.toks.len() => Ok(()),
                    (Out::Err(_), Res::Err(_)) => Ok(()),
                    (Out::Empty, _) | (Out::Unspec, _) => Ok(()),
                    (w, g) => Err(format!("gives {} where {:?} is expected", show(g), w)),
                }
            }
        };
        prims::MAX.with(|m| m.set(max));
        PEEK.with(|p| p.set(peeking));
        r
    }
}

/// The parses that are combined: of every program some that succeed, fail and panic.
fn items(progs: &[Prog], which: &[usize], thorough: bool) -> Vec<Item> {
    let mut all = vec![];
    for &i in which {
        let p = &progs[i];
        prims::MAX.with(|m| m.set(p.max));
        let g = match p.spec {
            Some(f) => f(),
            None => continue,
        };
        let mut inputs: Vec<Vec<Tok>> = vec![vec![]];
        let words = sent::Gen::new(&p.alphabet, p.sentences.0.max(1), 8).of(&(p.grammar)());
        let words: Vec<_> = words.into_iter().filter(|w| w.len() <= 24 && w.len() < p.longest).collect();
        inputs.extend(words.iter().cloned());
        sent::edits(&words, &p.alphabet, 400, &mut |w| {
            if w.len() <= 24 && w.len() < p.longest {
                inputs.push(w);
            }
            inputs.len() < 300
        });
        // (class, what is consumed or looked at): shortest and longest of each
        let mut best: Vec<(usize, usize, Vec<Tok>, Out)> = vec![];
        for w in inputs {
            let t = tape(&w);
            let mut cx = Cx::new(&t);
            let out = cx.eval(&g, 0);
            let (class, n) = match &out {
                Out::Ok(_, n) => (0, *n),
                Out::Err(_) => (2, cx.look),
                Out::Empty => (4, 0),
                Out::Unspec => continue,
            };
            best.push((class, n, w, out));
        }
        best.sort_by_key(|b| (b.0, b.1, b.2.len()));
        let mut mine: Vec<(Vec<Tok>, Out)> = vec![];
        let mut take = |b: Option<&(usize, usize, Vec<Tok>, Out)>| {
            if let Some(b) = b {
                if mine.iter().all(|m| m.0 != b.2) {
                    mine.push((b.2.clone(), b.3.clone()));
                }
            }
        };
        take(best.iter().find(|b| b.0 == 0 && b.1 > 0));
        take(best.iter().filter(|b| b.0 == 2).last());
        take(best.iter().filter(|b| b.0 == 0).last());
        take(best.iter().find(|b| b.0 == 4));
        if thorough {
            take(best.iter().find(|b| b.0 == 2));
            take(best.iter().find(|b| b.0 == 0));
            take(best.iter().filter(|b| b.0 == 4).last());
        }
        let hows = [
            How::On(ROOT, false),
            How::On(CUR, true),
            How::By(Entry::Source, true),
            How::On(CUR, false),
            How::By(Entry::Owned, false),
            How::On(ROOT, true),
            How::By(Entry::BufferRef, true),
            How::On(Sit { junk: 1, cache: 3, depth: 0, offs: 0 }, false),
        ];
        for (j, (toks, want)) in mine.into_iter().enumerate() {
            let n = all.len() + i;
            let mut how = if j == 0 && n % 2 == 0 { hows[0] } else { hows[n % hows.len()] };
            if p.entry.is_none() || p.max != usize::MAX {
                if let How::By(..) = how {
                    how = hows[0];
                }
            }
            all.push(Item { prog: i, toks, how, want });
        }
    }
    all
}

/// One unit of work, run in a process of its own.
#[derive(Clone, Debug)]
enum Unit {
    /// one after another
    Row(Vec<usize>),
    /// a, then everything after every other
    Triples(usize, usize),
    /// a n times, then everything
    Power(usize, usize),
    /// everything inside a, at every one of its reads; and inside that again
    Nested(usize),
    /// exactly: b within the k-th read of a, and c within every read of that
    NestedAt(usize, usize, usize, Option<usize>),
    /// a and everything, on two threads, under all schedules
    Threads(usize, usize),
    /// exactly these, under this schedule
    Schedule(Vec<usize>, Vec<usize>),
    /// three of them
    Three(usize),
}

struct Fault {
    kind: &'static str,
    code: Vec<Tok>,
    msg: String,
}

struct Done {
    execs: u64,
    switches: u64,
    schedules: u64,
    fault: Option<Fault>,
}

struct Runner<'a> {
    b: &'a Bench<'a>,
    /// the parses of this process so far
    past: Vec<usize>,
    d: Done,
}

const HISTORY: &str = "history";
const NESTED: &str = "nested";
const THREADS: &str = "threads";

impl<'a> Runner<'a> {
    fn step(&mut self, i: usize) -> bool {
        self.past.push(i);
        self.d.execs += 1;
        match self.b.one(i) {
            Ok(()) => true,
            Err(e) => {
                let from = self.past.len().saturating_sub(4);
                let before: Vec<_> = self.past[from..self.past.len() - 1].iter().map(|i| self.b.text(*i)).collect();
                self.d.fault = Some(Fault {
                    kind: HISTORY,
                    code: self.past.iter().map(|i| *i as Tok).collect(),
                    msg: format!("{}\n  {}\n  after {} other parses, the last of them:\n    {}", self.b.text(i), e, self.past.len() - 1, before.join("\n    ")),
                });
                false
            }
        }
    }

    fn run(&mut self, u: &Unit) {
        let n = self.b.items.len();
        match u {
            Unit::Row(l) => {
                for i in l {
                    if !self.step(*i) {
                        return;
                    }
                }
            }
            Unit::Triples(a, every) => {
                for x in 0..n {
                    if !self.step(*a) || !self.step(x) {
                        return;
                    }
                }
                for x in (a % every..n).step_by(*every) {
                    for y in 0..n {
                        if !self.step(*a) || !self.step(x) || !self.step(y) {
                            return;
                        }
                    }
                }
            }
            Unit::Power(a, k) => {
                for _ in 0..*k {
                    if !self.step(*a) {
                        return;
                    }
                }
                for x in 0..n {
                    if !self.step(x) {
                        return;
                    }
                }
            }
            Unit::Nested(a) => {
                for x in 0..n {
                    let mut k = 1;
                    while let Some(reads) = self.nested(*a, x, k, None) {
                        if reads < k || k > 9 {
                            break;
                        }
                        k += 1;
                    }
                    if self.d.fault.is_some() {
                        return;
                    }
                    // a third one at every read of the second, inside the first and the second read
                    for c in [*a, x, (a + x) % n].iter() {
                        for k in 1..3 {
                            if self.nested(*a, x, k, Some(*c)).is_none() {
                                return;
                            }
                        }
                    }
                }
            }
            Unit::NestedAt(a, x, k, c) => {
                let _ = self.nested(*a, *x, *k, *c);
            }
            Unit::Threads(a, most) => {
                for x in *a..n {
                    if !self.threads(&[*a, x], *most) {
                        return;
                    }
                }
            }
            Unit::Three(a) => {
                for x in 0..n {
                    let c = (a * 7 + x * 3 + 1) % n;
                    if !self.threads(&[*a, x, c], 60) {
                        return;
                    }
                }
            }
            Unit::Schedule(l, s) => {
                let r = schedule(self.b, l, s.iter().map(|c| (*c, usize::MAX)).collect(), usize::MAX);
                self.d.schedules += 1;
                if let Err(e) = r.result {
                    self.fault_threads(l, s.clone(), e);
                }
            }
        }
    }

    /// x within the k-th read of a, and c within each read of x. The number of reads of a.
    fn nested(&mut self, a: usize, x: usize, k: usize, c: Option<usize>) -> Option<usize> {
        let reads = Rc::new(std::cell::Cell::new(0));
        let inner: Rc<RefCell<Result<(), (usize, String)>>> = Rc::new(RefCell::new(Ok(())));
        let execs = Rc::new(std::cell::Cell::new(0));
        {
            // the benches outlive the hook, which is taken away below
            let b: &'static Bench<'static> = unsafe { std::mem::transmute(self.b) };
            let (reads, inner, execs) = (reads.clone(), inner.clone(), execs.clone());
            on_read(Some(Box::new(move || {
                reads.set(reads.get() + 1);
                if reads.get() != k {
                    return;
                }
                if let Some(c) = c {
                    let (inner, execs) = (inner.clone(), execs.clone());
                    on_read(Some(Box::new(move || {
                        execs.set(execs.get() + 1);
                        if let Err(e) = b.one(c) {
                            *inner.borrow_mut() = Err((c, e));
                        }
                    })));
                }
                execs.set(execs.get() + 1);
                let r = b.one(x);
                on_read(None);
                if let Err(e) = r {
                    *inner.borrow_mut() = Err((x, e));
                }
            })));
        }
        let outer = self.b.one(a);
        on_read(None);
        self.d.execs += 1 + execs.get();
        let r = match (outer, inner.replace(Ok(()))) {
            (Err(e), _) => Err((a, e)),
            (_, Err(e)) => Err(e),
            _ => Ok(()),
        };
        if let Err((i, e)) = r {
            let mut code = vec![a as Tok, x as Tok, k as Tok];
            code.extend(c.map(|c| c as Tok));
            self.d.fault = Some(Fault {
                kind: NESTED,
                code,
                msg: format!(
                    "{}\n  {}\n  where the source of {}\n    runs, when asked for its element {}, {}{}",
                    self.b.text(i),
                    e,
                    self.b.text(a),
                    k,
                    self.b.text(x),
                    c.map_or(String::new(), |c| format!("\n    whose source runs, whenever asked, {}", self.b.text(c)))
                ),
            });
            return None;
        }
        Some(reads.get())
    }

    fn fault_threads(&mut self, l: &[usize], s: Vec<usize>, (i, e): (usize, String)) {
        let mut code = vec![l.len() as Tok];
        code.extend(l.iter().map(|i| *i as Tok));
        code.extend(s.iter().map(|c| *c as Tok));
        let all: Vec<_> = l.iter().map(|i| self.b.text(*i)).collect();
        self.d.fault = Some(Fault {
            kind: THREADS,
            code,
            msg: format!("{}\n  {}\n  on a thread of its own, at the same time as the others of\n    {}\n  (schedule {:?})", self.b.text(i), e, all.join("\n    "), s),
        });
    }

    /// All schedules of these, or all with at most two preemptions if there are more than `most`.
    fn threads(&mut self, l: &[usize], most: usize) -> bool {
        for bound in [usize::MAX, 2, 1].iter() {
            let mut prefix: Vec<(usize, usize)> = vec![];
            let mut n = 0;
            loop {
                let r = schedule(self.b, l, prefix, *bound);
                n += 1;
                self.d.schedules += 1;
                self.d.execs += l.len() as u64;
                self.d.switches += r.choices.len() as u64;
                if let Err(e) = r.result {
                    self.fault_threads(l, r.choices.iter().map(|c| c.0).collect(), e);
                    return false;
                }
                prefix = r.choices;
                let mut more = false;
                while let Some((c, m)) = prefix.pop() {
                    if c + 1 < m {
                        prefix.push((c + 1, m));
                        more = true;
                        break;
                    }
                }
                if !more {
                    return true;
                }
                if n >= most && *bound > 1 {
                    break;
                }
            }
        }
        true
    }
}

/// Whose turn it is. A thread gives its turn away when its source is asked for an element
/// and when it ends.
struct Baton {
    turn: usize,
    done: Vec<bool>,
    choices: Vec<(usize, usize)>,
    at: usize,
    preemptions: usize,
    bound: usize,
}
impl Baton {
    fn choose(&mut self, me: Option<usize>) {
        // staying comes first
        let mut can: Vec<usize> = (0..self.done.len()).filter(|t| !self.done[*t]).collect();
        if let Some(m) = me.filter(|m| !self.done[*m]) {
            can.retain(|t| *t != m);
            can.insert(0, m);
            if self.preemptions >= self.bound {
                can.truncate(1);
            }
        }
        if can.is_empty() {
            self.turn = usize::MAX;
            return;
        }
        let c = if self.at < self.choices.len() {
            self.choices[self.at].1 = can.len();
            self.choices[self.at].0.min(can.len() - 1)
        } else {
            self.choices.push((0, can.len()));
            0
        };
        self.at += 1;
        self.turn = can[c];
        if me.map_or(false, |m| !self.done[m] && m != self.turn) {
            self.preemptions += 1;
        }
    }
}

struct Scheduled {
    choices: Vec<(usize, usize)>,
    result: Result<(), (usize, String)>,
}

fn schedule(b: &Bench<'_>, l: &[usize], prefix: Vec<(usize, usize)>, bound: usize) -> Scheduled {
    let b: &'static Bench<'static> = unsafe { std::mem::transmute(b) };
    let mut baton = Baton { turn: 0, done: vec![false; l.len()], choices: prefix, at: 0, preemptions: 0, bound };
    baton.choose(None);
    let baton = Arc::new((Mutex::new(baton), Condvar::new()));
    let threads: Vec<_> = l
        .iter()
        .enumerate()
        .map(|(me, i)| {
            let (i, baton) = (*i, baton.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let wait = move |baton: &(Mutex<Baton>, Condvar)| {
                        let mut g = baton.0.lock().unwrap();
                        while g.turn != me {
                            g = baton.1.wait(g).unwrap();
                        }
                    };
                    wait(&baton);
                    let bt = baton.clone();
                    on_read(Some(Box::new(move || {
                        bt.0.lock().unwrap().choose(Some(me));
                        bt.1.notify_all();
                        wait(&bt);
                    })));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.one(i)));
                    on_read(None);
                    let mut g = baton.0.lock().unwrap();
                    g.done[me] = true;
                    g.choose(Some(me));
                    baton.1.notify_all();
                    r.unwrap_or_else(|_| Err("fails outside the parser".into()))
                })
                .unwrap()
        })
        .collect();
    let mut result = Ok(());
    for (t, i) in threads.into_iter().zip(l) {
        if let (Err(e), true) = (t.join().unwrap(), result.is_ok()) {
            result = Err((*i, e));
        }
    }
    let mut g = baton.0.lock().unwrap();
    let at = g.at;
    g.choices.truncate(at);
    Scheduled { choices: std::mem::take(&mut g.choices), result }
}

/// Runs a unit in a process of its own.
fn apart(b: &Bench<'_>, u: &Unit, seconds: u32) -> Done {
    let (mut mine, mut other) = UnixStream::pair().expect("socket pair");
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        drop(mine);
        unsafe { alarm(seconds) };
        let mut r = Runner { b, past: vec![], d: Done { execs: 0, switches: 0, schedules: 0, fault: None } };
        r.run(u);
        let (kind, code, msg) = match r.d.fault {
            None => ("", vec![], String::new()),
            Some(f) => (f.kind, f.code, f.msg),
        };
        let code: Vec<_> = code.iter().map(|c| c.to_string()).collect();
        let out = format!("{} {} {}\n{}\n{}\n{}", r.d.execs, r.d.switches, r.d.schedules, kind, code.join(" "), msg);
        let _ = other.write_all(out.as_bytes());
        unsafe { _exit(0) }
    }
    drop(other);
    let mut s = String::new();
    let _ = mine.read_to_string(&mut s);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    let mut l = s.splitn(4, '\n');
    let mut line = || l.next().unwrap_or("");
    let mut nums = line().split(' ').map(|n| n.parse().unwrap_or(0));
    let mut num = || nums.next().unwrap_or(0);
    let mut d = Done { execs: num(), switches: num(), schedules: num(), fault: None };
    let kind = line();
    let code: Vec<Tok> = line().split(' ').filter_map(|c| c.parse().ok()).collect();
    let kind = [HISTORY, NESTED, THREADS].iter().copied().find(|k| *k == kind);
    if let Some(kind) = kind {
        d.fault = Some(Fault { kind, code, msg: line().into() });
    } else if status != 0 || s.is_empty() {
        let how = match (status & 0x7f, status >> 8) {
            (14, _) => format!("does not end within {} s", seconds),
            (0, 77) => "allocates without end".into(),
            (0, c) => format!("ends the process ({})", c),
            (s, _) => format!("kills the process (signal {})", s),
        };
        d.fault = Some(Fault { kind: "process", code: vec![], msg: format!("{:?}: {}", u, how) });
    }
    d
}

/// The shortest end of a history that still shows the failure.
fn shortest(b: &Bench<'_>, f: Fault) -> Fault {
    if f.kind != HISTORY {
        return f;
    }
    let l: Vec<usize> = f.code.iter().map(|c| *c as usize).collect();
    let mut k = 1;
    while k < l.len() {
        let again = apart(b, &Unit::Row(l[l.len() - k..].to_vec()), 60);
        if let Some(g) = again.fault {
            return g;
        }
        k = if k < 4 { k + 1 } else { k * 2 };
    }
    // the history as a whole, in as few different parses as possible
    for x in 0..b.items.len() {
        let mut m = vec![x; 3];
        m.push(l[l.len() - 1]);
        if let Some(g) = apart(b, &Unit::Row(m), 60).fault {
            return g;
        }
    }
    f
}

const GROUP: usize = 14;

/// Entry point of the check's binary.
pub fn main(cfg: Cfg, progs: Vec<Prog>) {
    let a = args();
    if a.list {
        for p in &progs {
            println!("{}\t{}", p.id, p.text);
        }
        return;
    }
    silence();
    let code = std::thread::Builder::new().stack_size(STACK).spawn(move || explore(cfg, progs, a)).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}

fn explore(cfg: Cfg, progs: Vec<Prog>, a: crate::run::Args) -> i32 {
    let th = a.thorough;
    let everything: Vec<usize> = (0..progs.len()).collect();
    let groups: Vec<Bench<'_>> = everything
        .chunks(GROUP)
        .chain(Some(&everything[..]))
        .map(|g| Bench { progs: &progs, items: items(&progs, g, th) })
        .collect();
    if let Some((kind, code)) = a.replay {
        let g = &groups[code[0] as usize];
        let c: Vec<usize> = code[1..].iter().map(|c| *c as usize).collect();
        let u = match kind.as_str() {
            HISTORY => Unit::Row(c),
            NESTED => Unit::NestedAt(c[0], c[1], c[2], c.get(3).copied()),
            THREADS => Unit::Schedule(c[1..1 + c[0]].to_vec(), c[1 + c[0]..].to_vec()),
            _ => units(g, &cfg, th, code[0] as usize + 1 == groups.len())[c[0]].clone(),
        };
        return match apart(g, &u, 300).fault {
            None => {
                println!("held");
                0
            }
            Some(f) => {
                println!("failed: {}", f.msg);
                1
            }
        };
    }
    let mut st = Stats::default();
    let mut violations: Vec<Violation> = vec![];
    let mut samples = vec![];
    let (mut schedules, mut switches, mut processes) = (0, 0, 0);
    'all: for (n, g) in groups.iter().enumerate() {
        for (i, it) in g.items.iter().enumerate() {
            if n + 1 < groups.len() {
                match it.want {
                    Out::Ok(..) => st.ok += 1,
                    Out::Err(_) => st.err += 1,
                    _ => st.empty += 1,
                }
                if i % 17 == 3 {
                    samples.push(g.text(i));
                }
            }
        }
        for (k, u) in units(g, &cfg, th, n + 1 == groups.len()).iter().enumerate() {
            let d = apart(g, u, if th { 1800 } else { 300 });
            processes += 1;
            st.execs += d.execs;
            schedules += d.schedules;
            switches += d.switches;
            if let Some(f) = d.fault {
                let f = shortest(g, f);
                let mut toks = vec![n as Tok];
                toks.extend(if f.kind == "process" { vec![k as Tok] } else { f.code });
                violations.push(Violation { prog: f.kind.into(), toks, msg: f.msg });
                if violations.len() >= 3 {
                    break 'all;
                }
                break;
            }
        }
    }
    st.programs = progs.len() as u64;
    st.leaves = st.execs - schedules.min(st.execs) + schedules;
    st.nodes = switches + st.execs;
    st.edges = switches + st.execs;
    samples.truncate(3);
    let items: usize = groups[..groups.len() - 1].iter().map(|g| g.items.len()).sum();
    let notes = vec![format!(
        "{} programs, {} parses combined: {} processes with histories of their own, {} executions, {} thread schedules with {} scheduling points",
        progs.len(), items, processes, st.execs, schedules, switches
    )];
    println!("{}: {}", cfg.property, notes[0]);
    for v in &violations {
        println!("{} {}: {}", v.prog, json(&format!("{:?}", v.toks)), v.msg);
    }
    let bad = !violations.is_empty();
    if let Some(o) = &a.out {
        crate::run::write_report(o, &Report { stats: st, violations, samples, notes });
    }
    if bad {
        1
    } else {
        0
    }
}

fn units(g: &Bench<'_>, cfg: &Cfg, th: bool, across: bool) -> Vec<Unit> {
    let n = g.items.len();
    let mut r = vec![];
    if across {
        // everything of this process, in several orders
        r.push(Unit::Row((0..n).collect()));
        r.push(Unit::Row((0..n).rev().collect()));
        for s in [7, 11, 13, 29].iter() {
            r.push(Unit::Row((0..*s).flat_map(|o| (o..n).step_by(*s)).collect()));
        }
        return r;
    }
    for i in 0..n {
        r.push(Unit::Row(vec![i, i]));
        let mut all: Vec<usize> = vec![i];
        all.extend(0..n);
        r.push(Unit::Row(all));
        r.push(Unit::Triples(i, if th { 1 } else { 2 }));
        r.push(Unit::Power(i, if th { 70_000 } else { cfg.quick as usize }));
        r.push(Unit::Nested(i));
        r.push(Unit::Threads(i, if th { 400 } else { 72 }));
        if th {
            r.push(Unit::Three(i));
        }
    }
    r
}
