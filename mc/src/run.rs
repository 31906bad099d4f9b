//! Explores a list of programs with the oracles of one property, in parallel, and reports.
use crate::explore::{self, Failed, Stats};
use crate::obs::*;
use crate::spec::{Cx, Gr, Out, Part};
use crate::tape::{Tape, TapeRc, Tok, TokT};
use crate::val::{show_toks, ToVal, Val};
use crate::{alloc, crumb, live, sent};
use nommy::Parse;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Prog {
    pub id: String,
    /// the type under test, as source text
    pub text: &'static str,
    pub spec: Option<fn() -> Gr>,
    /// the grammar, for making up inputs
    pub grammar: fn() -> Gr,
    /// inputs made up from the grammar: depth of recursion, sentences (0: none)
    pub sentences: (usize, usize),
    pub observe: fn(Sit, bool, &TapeRc) -> Obs,
    pub entry: Option<fn(Entry, bool, &TapeRc) -> Entered>,
    /// the program in a loop, on a stream that repeats itself
    pub walk: Option<fn(&crate::space::Walk<'_>) -> crate::space::Walked>,
    /// the same program over other tokens
    pub twin: Option<fn(Sit, bool, &TapeRc) -> Obs>,
    pub alphabet: Vec<Tok>,
    /// further inputs, beyond the tree of all short ones
    pub inputs: Vec<Vec<Tok>>,
    /// every value of the token type between each of these
    pub around: Vec<(Vec<Tok>, Vec<Tok>)>,
    /// number of values of the token type
    pub scalars: u32,
    /// maximum passed to the list functions
    pub max: usize,
    /// the number of tracked values in a result, when the program's values are tracked
    pub tracked: Tracking,
    /// no longer sources than this
    pub longest: usize,
    /// share of the budget
    pub weight: f64,
    /// long repetitions u v^k w: no more than this many in all (0: none)
    pub max_pump: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tracking {
    /// elements are not tracked
    Off,
    /// every token in the result is one tracked value
    Values,
    /// the input elements are tracked; the buffer may hold some when a call returns
    Input,
}

pub fn prog<P, T>(id: &str, text: &'static str, spec: fn() -> Gr, alphabet: &str) -> Prog
where
    P: Parse<T> + ToVal,
    T: TokT,
{
    Prog {
        id: id.into(),
        text,
        spec: Some(spec),
        grammar: spec,
        sentences: (3, 16),
        observe: observe::<P, T>,
        entry: None,
        walk: None,
        twin: None,
        alphabet: crate::spec::toks(alphabet),
        inputs: vec![],
        around: vec![],
        scalars: if std::mem::size_of::<T>() == 1 { 256 } else { 0x11_0000 },
        max: usize::MAX,
        tracked: Tracking::Off,
        longest: usize::MAX,
        weight: 1.0,
        max_pump: usize::MAX,
    }
}
impl Prog {
    pub fn with_entry<P, T>(mut self) -> Prog
    where
        P: Parse<T> + ToVal,
        T: TokT,
    {
        self.entry = Some(entry::<P, T>);
        self
    }
    pub fn with_walk<P, T>(mut self) -> Prog
    where
        P: Parse<T> + ToVal,
        T: TokT,
    {
        self.walk = Some(crate::space::walk::<P, T>);
        self
    }
    pub fn with_twin<P, T>(mut self) -> Prog
    where
        P: Parse<T> + ToVal,
        T: TokT,
    {
        self.twin = Some(observe::<P, T>);
        self
    }
    pub fn inputs(mut self, i: Vec<Vec<Tok>>) -> Prog {
        self.inputs.extend(i);
        self
    }
    pub fn texts(self, i: &[&str]) -> Prog {
        let i = i.iter().map(|s| crate::spec::toks(s)).collect();
        self.inputs(i)
    }
    pub fn alphabet(mut self, a: Vec<Tok>) -> Prog {
        self.alphabet = a;
        self
    }
    pub fn tracked(mut self, t: Tracking) -> Prog {
        self.tracked = t;
        self
    }
    pub fn weight(mut self, w: f64) -> Prog {
        self.weight = w;
        self
    }
    /// also every single token, between `a` and `b`
    pub fn around(mut self, a: &str, b: &str) -> Prog {
        self.around.push((crate::spec::toks(a), crate::spec::toks(b)));
        self
    }
    pub fn max(mut self, n: usize) -> Prog {
        self.max = n;
        self
    }
    pub fn no_spec(mut self) -> Prog {
        self.spec = None;
        self
    }
    pub fn sentences(mut self, deep: usize, n: usize) -> Prog {
        self.sentences = (deep, n);
        self
    }
    /// for grammars that take exponential time by nature
    pub fn longest(mut self, n: usize) -> Prog {
        self.longest = n;
        self.max_pump = 0;
        self
    }
    pub fn no_pump(mut self) -> Prog {
        self.max_pump = 0;
        self
    }
    pub fn max_pump(mut self, n: usize) -> Prog {
        self.max_pump = n;
        self
    }
}

/// What is compared.
#[derive(Clone, Copy, Default, Debug)]
pub struct Oracles {
    /// value and rest of parse, result and rest of peek, against the reference model
    pub value: bool,
    /// parse against peek
    pub peek: bool,
    /// every reading situation against a fresh buffer
    pub sits: bool,
    pub own: bool,
    pub lazy: bool,
    pub ends: bool,
    pub errors: bool,
    pub entry: bool,
    /// the same program over other tokens
    pub twin: bool,
}

pub struct Cfg {
    pub property: &'static str,
    pub oracles: Oracles,
    pub quick: u64,
    pub thorough: u64,
    pub max_len: usize,
    /// (longest end, longest unit, repetitions) of pumped inputs, quick and thorough
    pub pump: (usize, usize, &'static [usize]),
    pub pump_thorough: (usize, usize, &'static [usize]),
}

pub const SITS_QUICK: &[Sit] = &[
    CUR,
    Sit { junk: 0, cache: 0, depth: 1, offs: 0 },
    Sit { junk: 0, cache: 0, depth: 2, offs: 1 },
    Sit { junk: 0, cache: 0, depth: 3, offs: 2 },
    Sit { junk: 0, cache: 1, depth: 0, offs: 0 },
    Sit { junk: 0, cache: 2, depth: 0, offs: 0 },
    Sit { junk: 0, cache: 3, depth: 0, offs: 0 },
    Sit { junk: 0, cache: 9, depth: 0, offs: 0 },
    Sit { junk: 1, cache: 0, depth: 0, offs: 0 },
    Sit { junk: 3, cache: 2, depth: 0, offs: 0 },
    Sit { junk: 0, cache: 1, depth: 1, offs: 1 },
    Sit { junk: 2, cache: 9, depth: 1, offs: 1 },
    Sit { junk: 1, cache: 2, depth: 2, offs: 1 },
    Sit { junk: 1, cache: 9, depth: 3, offs: 1 },
    Sit { junk: 2, cache: 0, depth: 1, offs: 2 },
];
pub const SITS_FAR: &[Sit] = &[
    Sit { junk: 20, cache: 70, depth: 4, offs: 17 },
    Sit { junk: 0, cache: 300, depth: 6, offs: 50 },
    Sit { junk: 260, cache: 0, depth: 1, offs: 130 },
    Sit { junk: 300, cache: 0, depth: 2, offs: 300 },
    Sit { junk: 5_000, cache: 1, depth: 0, offs: 0 },
];
pub fn sits(thorough: bool) -> Vec<Sit> {
    if !thorough {
        return SITS_QUICK.to_vec();
    }
    let mut r = vec![];
    for junk in 0..4 {
        for cache in [0, 1, 2, 3, 5, 9].iter() {
            for depth in 0..4 {
                for offs in 0..3 {
                    if depth == 0 && offs > 0 {
                        continue;
                    }
                    let s = Sit { junk, cache: *cache, depth, offs };
                    if s != ROOT {
                        r.push(s);
                    }
                }
            }
        }
    }
    r
}

fn class(r: &Res) -> Option<bool> {
    match r {
        Res::Ok(_) => Some(true),
        Res::Err(_) => Some(false),
        Res::Peek(b) => Some(*b),
        _ => None,
    }
}
pub fn show(r: &Res) -> String {
    match r {
        Res::Ok(v) => format!("Ok({:?})", v),
        Res::Err(c) => format!("Err({:?})", c),
        Res::Peek(b) => format!("peek {}", b),
        Res::Panic(s) => format!("a panic ({:?})", s),
        Res::Livelock => "no result: it keeps reading at the end of the input".into(),
    }
}
pub fn show_sit(s: Sit) -> String {
    if s == ROOT {
        return "on a fresh buffer".into();
    }
    format!(
        "with {} elements consumed before, {} looked ahead at, at cursor depth {} (offset {} each)",
        s.junk, s.cache, s.depth, s.offs
    )
}
fn count_toks(v: &Val) -> usize {
    match v {
        Val::T(_) => 1,
        Val::L(l) | Val::R(_, l) => l.iter().map(count_toks).sum(),
        Val::O(Some(v)) => count_toks(v),
        _ => 0,
    }
}

/// Whether `word` occurs in `s` as a whole word.
fn names(s: &str, word: &str) -> bool {
    let ident = |c: char| c.is_alphanumeric() || c == '_';
    let mut from = 0;
    while let Some(i) = s[from..].find(word) {
        let a = from + i;
        let b = a + word.len();
        let before = s[..a].chars().next_back().map_or(false, ident);
        let after = s[b..].chars().next().map_or(false, ident);
        if !before && !after {
            return true;
        }
        from = a + s[a..].chars().next().unwrap().len_utf8();
    }
    false
}

pub fn bare(n: &str) -> &str {
    n.strip_prefix("r#").unwrap_or(n)
}

fn check_chain(parts: &[Part], chain: &[String]) -> Result<(), String> {
    let at = |i: usize| -> Result<&String, String> {
        chain.get(i).ok_or_else(|| format!("there is no cause number {} in {:?}", i, chain))
    };
    for (i, p) in parts.iter().enumerate() {
        let m = at(i)?;
        let lower = m.to_lowercase();
        let (ok, want) = match p {
            Part::Field(n) => (
                names(m, bare(n)) && !names(&lower, "prefix") && !names(&lower, "suffix"),
                format!("field `{}`", n),
            ),
            Part::Prefix(n) => (names(m, bare(n)) && names(&lower, "prefix"), format!("the prefix of `{}`", n)),
            Part::Suffix(n) => (names(m, bare(n)) && names(&lower, "suffix"), format!("the suffix of `{}`", n)),
            Part::Variants(n) => (names(m, bare(n)), format!("the enum `{}`", n)),
            Part::Element(n) => (names(m, &n.to_string()), format!("element {}", n)),
            Part::Leaf | Part::Conversion => (true, String::new()),
        };
        if !ok {
            return Err(format!("error message {} should name {}, but the messages are {:?}", i, want, chain));
        }
    }
    Ok(())
}

pub struct Env<'a> {
    pub o: Oracles,
    pub sits: Vec<Sit>,
    /// far into the source, only for some inputs
    pub far: std::cell::Cell<bool>,
    pub progs: &'a [Prog],
}

pub fn against_spec(want: &Out, o: &Obs, peek: bool) -> Result<(), String> {
    match want {
        Out::Ok(v, p) => {
            let ok = if peek { o.res == Res::Peek(true) } else { o.res == Res::Ok(v.clone()) };
            if !ok {
                return Err(format!("gives {} where {} is expected", show(&o.res), if peek { "true".into() } else { format!("Ok({:?})", v) }));
            }
            if o.consumed != *p {
                return Err(format!("consumes {} elements instead of {}", o.consumed, p));
            }
            o.rest.clone()
        }
        Out::Err(_) => {
            if class(&o.res) != Some(false) {
                return Err(format!("gives {} where an error is expected", show(&o.res)));
            }
            o.rest.clone()
        }
        Out::Empty | Out::Unspec => Ok(()),
    }
}

/// Compares everything that `env` asks for on one tape.
fn body(env: &Env<'_>, p: &Prog, tape: &TapeRc, st: &mut Stats) -> Result<(), String> {
    let o = env.o;
    let mut look = usize::MAX;
    let want = match p.spec {
        None => Out::Unspec,
        Some(_) => {
            let g = GRAMMAR.with(|g| g.borrow().clone()).unwrap();
            let mut cx = Cx::new(tape);
            let out = cx.eval(&g, 0);
            look = cx.look;
            out
        }
    };
    match &want {
        Out::Ok(..) => st.ok += 1,
        Out::Err(_) => st.err += 1,
        Out::Empty => st.empty += 1,
        Out::Unspec => st.unspec += 1,
    }
    let mut run = |sit: Sit, peek: bool| {
        st.execs += 1;
        let ob = (p.observe)(sit, peek, tape);
        if o.own {
            own(p, &ob).map_err(|e| format!("{} {}: {}", verb(peek), show_sit(sit), e))?;
        }
        if o.lazy && class(&ob.res).is_some() && look != usize::MAX && ob.pulled > look.max(sit.cache) {
            return Err(format!(
                "{} {}: {} elements were pulled from the source (its end counting as one), where {} decide the result",
                verb(peek), show_sit(sit), ob.pulled, look
            ));
        }
        if o.ends {
            let ended = match (&want, &ob.res) {
                (Out::Unspec, _) if p.spec.is_some() => matches!(ob.res, Res::Livelock),
                (_, Res::Livelock) => true,
                (Out::Empty, r) => !matches!(r, Res::Panic(_)),
                (Out::Unspec, _) => false,
                (_, Res::Panic(_)) => true,
                _ => false,
            };
            if ended {
                let want = if want == Out::Empty {
                    "a panic, as something repeated or optional matched without reading"
                } else {
                    "to return"
                };
                return Err(format!("{} {}: gives {} where it has {}", verb(peek), show_sit(sit), show(&ob.res), want));
            }
        }
        Ok(ob)
    };
    let root = run(ROOT, false)?;
    if o.value {
        against_spec(&want, &root, false).map_err(|e| format!("parse {}: {}", show_sit(ROOT), e))?;
        for (sit, peek) in [(CUR, false), (ROOT, true), (Sit { cache: 2, ..CUR }, false)].iter() {
            let ob = run(*sit, *peek)?;
            against_spec(&want, &ob, *peek).map_err(|e| format!("{} {}: {}", verb(*peek), show_sit(*sit), e))?;
        }
    }
    if o.errors {
        if let Out::Err(parts) = &want {
            let chain = match &root.res {
                Res::Err(c) => c.clone(),
                r => return Err(format!("parse gives {} where an error is expected", show(r))),
            };
            check_chain(parts, &chain)?;
        }
    }
    if o.peek && want != Out::Empty && want != Out::Unspec {
        for sit in [ROOT, CUR, Sit { junk: 1, cache: 3, depth: 0, offs: 0 }].iter() {
            let a = if *sit == ROOT { root.clone() } else { run(*sit, false)? };
            let b = run(*sit, true)?;
            if class(&a.res) != class(&b.res) || class(&a.res).is_none() {
                return Err(format!("{}: parse gives {}, peek gives {}", show_sit(*sit), show(&a.res), show(&b.res)));
            }
            if class(&a.res) == Some(true) && a.consumed != b.consumed {
                return Err(format!("{}: parse consumes {} elements, peek {}", show_sit(*sit), a.consumed, b.consumed));
            }
        }
    }
    if o.sits {
        let pk = run(ROOT, true)?;
        let far: &[Sit] = if env.far.get() { SITS_FAR } else { &[] };
        for sit in env.sits.iter().chain(far) {
            for (base, peek) in [(&root, false), (&pk, true)].iter() {
                let ob = run(*sit, *peek)?;
                let same = match (&base.res, &ob.res) {
                    (Res::Err(a), Res::Err(b)) => a == b,
                    (Res::Panic(_), Res::Panic(_)) => true,
                    (a, b) => a == b,
                };
                let what = |r: String| format!("{} {}: {}", verb(*peek), show_sit(*sit), r);
                if !same {
                    return Err(what(format!("gives {}, on a fresh buffer {}", show(&ob.res), show(&base.res))));
                }
                if class(&ob.res) == Some(true) && ob.consumed != base.consumed {
                    return Err(what(format!("consumes {} elements, on a fresh buffer {}", ob.consumed, base.consumed)));
                }
                if class(&ob.res).is_some() {
                    ob.rest.map_err(what)?;
                }
            }
        }
    }
    if o.twin {
        let twin = p.twin.expect("program has a twin");
        for (sit, peek) in [(ROOT, false), (ROOT, true), (CUR, false), (Sit { junk: 1, cache: 2, depth: 0, offs: 0 }, false)].iter() {
            let a = if *sit == ROOT && !*peek { root.clone() } else { run(*sit, *peek)? };
            let b = twin(*sit, *peek, tape);
            let what = |r: String| format!("{} {}: {}", verb(*peek), show_sit(*sit), r);
            let same = match (&a.res, &b.res) {
                (Res::Err(_), Res::Err(_)) | (Res::Panic(_), Res::Panic(_)) => true,
                (a, b) => a == b,
            };
            if !same {
                return Err(what(format!("gives {}, but {} over characters", show(&a.res), show(&b.res))));
            }
            if class(&a.res) == Some(true) && a.consumed != b.consumed {
                return Err(what(format!("consumes {} elements, but {} over characters", a.consumed, b.consumed)));
            }
        }
    }
    if o.own || o.ends || o.lazy {
        run(ROOT, true)?;
        run(CUR, false)?;
        run(CUR, true)?;
        run(Sit { junk: 1, cache: 2, depth: 0, offs: 0 }, false)?;
    }
    if (o.entry || o.own || o.lazy) && class(&root.res).is_some() && want != Out::Empty {
        entries(o, p, &root, look, tape, st)?;
    }
    Ok(())
}

/// The entry points against the parser, on the same tape.
fn entries(o: Oracles, p: &Prog, root: &Obs, look: usize, tape: &TapeRc, st: &mut Stats) -> Result<(), String> {
    let f = match p.entry {
        Some(f) => f,
        None => return Ok(()),
    };
    for terminated in [true, false].iter() {
        let want = match &root.res {
            Res::Ok(v) if !*terminated => Some(v.clone()),
            Res::Ok(v) => {
                // is there one more element?
                let next = tape.borrow_mut().get(root.consumed);
                if next.is_none() {
                    Some(v.clone())
                } else {
                    None
                }
            }
            _ => None,
        };
        let name = if *terminated { "parse_terminated" } else { "nommy::parse" };
        for kind in ENTRIES.iter() {
            if !o.entry && !matches!(kind, Entry::Source | Entry::Owned | Entry::Buffer) {
                continue;
            }
            st.execs += 1;
            let e = f(*kind, *terminated, tape);
            let ok = match (&want, &e.res) {
                (Some(v), Res::Ok(w)) => v == w,
                (None, Res::Err(_)) => true,
                _ => false,
            };
            if o.entry && !ok {
                return Err(format!(
                    "{} of {:?} gives {} where {} is expected",
                    name,
                    kind,
                    show(&e.res),
                    want.map_or("an error".to_string(), |v| format!("Ok({:?})", v))
                ));
            }
            if o.own {
                if let Some(f) = e.faults.first() {
                    return Err(format!("{} of {:?}: {}", name, kind, f));
                }
                if e.live_end != 0 {
                    return Err(format!("{} of {:?}: {} values were never dropped", name, kind, e.live_end));
                }
            }
            let most = match root.res {
                Res::Ok(_) if *terminated => look.max(root.consumed + 1),
                _ => look,
            };
            let before = match kind {
                Entry::Source => Some(0),
                Entry::BufferRef => Some(1),
                Entry::Buffer => Some(2),
                _ => None,
            };
            if o.lazy && look != usize::MAX && before.map_or(false, |b| e.pulled > most.max(b)) {
                return Err(format!(
                    "{} of {:?}: {} elements were pulled from the source (its end counting as one), where {} decide the result",
                    name, kind, e.pulled, most
                ));
            }
        }
    }
    Ok(())
}

fn verb(peek: bool) -> &'static str {
    if peek {
        "peek"
    } else {
        "parse"
    }
}

fn own(p: &Prog, ob: &Obs) -> Result<(), String> {
    if let Some(f) = ob.faults.first() {
        return Err(f.clone());
    }
    if ob.live_end != 0 {
        return Err(format!("{} values were never dropped", ob.live_end));
    }
    if p.tracked == Tracking::Values {
        let n = match &ob.res {
            Res::Ok(v) => count_toks(v),
            _ => 0,
        };
        if ob.live_ret != n {
            return Err(format!("{} values exist when the call returns, {} are in its result", ob.live_ret, n));
        }
    }
    Ok(())
}

thread_local! {
    static GRAMMAR: RefCell<Option<Gr>> = RefCell::new(None);
}

fn guarded(env: &Env<'_>, p: &Prog, tape: &TapeRc, st: &mut Stats) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| body(env, p, tape, st))) {
        Ok(r) => r,
        Err(e) => {
            tape.borrow_mut().frozen = false;
            Err(format!("outside the parser: {}", show(&panic_res(e))))
        }
    }
}

fn set_grammar(p: &Prog) {
    crate::prims::MAX.with(|m| m.set(p.max));
    let g = p.spec.map(|f| f());
    GRAMMAR.with(|x| *x.borrow_mut() = g);
}

fn fixed(env: &Env<'_>, i: usize, toks: &[Tok], st: &mut Stats) -> Result<(), String> {
    crumb::begin(i);
    crumb::set_toks(toks);
    alloc::reset();
    let tape = Rc::new(RefCell::new(Tape::fixed(toks)));
    let r = guarded(env, &env.progs[i], &tape, st);
    crumb::end();
    r
}

pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn json_list(l: &[Tok]) -> String {
    format!("[{}]", l.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(","))
}

pub struct Violation {
    pub prog: String,
    pub toks: Vec<Tok>,
    pub msg: String,
}

pub struct Report {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}

pub fn write_report(path: &str, r: &Report) {
    let s = &r.stats;
    let mut out = String::new();
    out.push_str(&format!(
        "{{\"programs\":{},\"closed_programs\":{},\"states\":{},\"transitions\":{},\"leaves\":{},\"execs\":{},\"pumped\":{},\"edits\":{},\"edits_ok\":{},\"no_sentence\":{},\"ok\":{},\"err\":{},\"empty\":{},\"unspec\":{},\"min_len\":{},\"max_len\":{}",
        s.programs, s.closed_programs, s.nodes + s.leaves, s.edges, s.leaves, s.execs, s.pumped, s.edits, s.edits_ok, s.no_sentence, s.ok, s.err, s.empty, s.unspec,
        if s.min_len == usize::MAX { s.max_len } else { s.min_len }, s.max_len
    ));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"prog\":{},\"toks\":{},\"msg\":{}}}", json(&v.prog), json_list(&v.toks), json(&v.msg)))
        .collect();
    out.push_str(&format!(",\"violations\":[{}]", v.join(",")));
    let l = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(",");
    out.push_str(&format!(",\"samples\":[{}],\"notes\":[{}]}}\n", l(&r.samples), l(&r.notes)));
    std::fs::write(path, out).expect("report");
}

pub struct Args {
    pub thorough: bool,
    pub crumb: Option<String>,
    pub out: Option<String>,
    pub jobs: usize,
    pub replay: Option<(String, Vec<Tok>)>,
    pub only: Option<String>,
    pub scale: f64,
    pub list: bool,
}
pub fn args() -> Args {
    let mut a =
        Args { thorough: false, crumb: None, out: None, jobs: 8, replay: None, only: None, scale: 1.0, list: false };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--thorough" => a.thorough = true,
            "--quick" => a.thorough = false,
            "--crumb" => a.crumb = Some(v()),
            "--out" => a.out = Some(v()),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--only" => a.only = Some(v()),
            "--scale" => a.scale = v().parse().unwrap(),
            "--list" => a.list = true,
            "--replay" => {
                let p = v();
                let t = v();
                let t = t.trim_matches(|c| c == '[' || c == ']');
                a.replay = Some((p, t.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect()));
            }
            x => panic!("unknown argument {}", x),
        }
    }
    a
}

pub fn silence() {
    std::panic::set_hook(Box::new(|_| ()));
}

pub const STACK: usize = 1 << 30;

/// Entry point of a check's binary.
pub fn main(cfg: Cfg, progs: Vec<Prog>) {
    let a = args();
    if a.list {
        for p in &progs {
            println!("{}\t{}", p.id, p.text);
        }
        return;
    }
    silence();
    if let Some(c) = &a.crumb {
        crumb::open(c);
        alloc::watchdog(300);
    }
    let th = a.thorough;
    let progs = Arc::new(progs);
    {
        let mut ids: Vec<&str> = progs.iter().map(|p| p.id.as_str()).collect();
        ids.sort_unstable();
        let n = ids.len();
        ids.dedup();
        assert_eq!(ids.len(), n, "program ids are unique");
    }
    if let Some((id, toks)) = a.replay {
        let code = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let env = Env { o: cfg.oracles, sits: sits(th), far: true.into(), progs: &progs };
                let i = progs.iter().position(|p| p.id == id).expect("no such program");
                println!("{}", progs[i].text);
                set_grammar(&progs[i]);
                let r = fixed(&env, i, &toks, &mut Stats::default());
                match r {
                    Ok(()) => {
                        println!("held");
                        0
                    }
                    Err(e) => {
                        println!("failed on {}: {}", show_toks(&toks), e);
                        1
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2);
        std::process::exit(code);
    }
    let budget = (if th { cfg.thorough } else { cfg.quick }) as f64 * a.scale;
    let pump = if th { cfg.pump_thorough } else { cfg.pump };
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let result: Arc<Mutex<Report>> =
        Arc::new(Mutex::new(Report { stats: Stats::default(), violations: vec![], samples: vec![], notes: vec![] }));
    let oracles = cfg.oracles;
    let max_len = cfg.max_len;
    let threads: Vec<_> = (0..a.jobs)
        .map(|w| {
            let (next, stop, result, progs) = (next.clone(), stop.clone(), result.clone(), progs.clone());
            let only = a.only.clone();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    crumb::worker(w);
                    let env = Env { o: oracles, sits: sits(th), far: false.into(), progs: &progs };
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= progs.len() || stop.load(SeqCst) {
                            return;
                        }
                        let p = &progs[i];
                        if only.as_ref().map_or(false, |o| !p.id.contains(o.as_str())) {
                            continue;
                        }
                        set_grammar(p);
                        let mut sample = String::new();
                        let mut n = 0;
                        let (mut st, mut bad) = explore::tapes(
                            i,
                            &p.alphabet,
                            (budget * p.weight) as u64,
                            max_len.min(p.longest),
                            &|| stop.load(SeqCst),
                            &mut |tape, st| {
                                let r = guarded(&env, p, tape, st);
                                n += 1;
                                if n == 37 || n == 1 {
                                    sample = show_toks(&tape.borrow().toks);
                                }
                                r
                            },
                        );
                        if bad.is_none() {
                            let mut left = p.max_pump;
                            let mut no_sentence = false;
                            let mut one = |toks: Vec<Tok>, kind: &mut (u64, u64)| {
                                if stop.load(SeqCst) {
                                    return false;
                                }
                                kind.0 += 1;
                                env.far.set(kind.0 <= 40);
                                let ok = st.ok;
                                if let Err(msg) = fixed(&env, i, &toks, &mut st) {
                                    bad = Some(Failed { toks, eof: true, msg });
                                    return false;
                                }
                                kind.1 += st.ok - ok;
                                true
                            };
                            let (mut pumped, mut edits) = ((0, 0), (0, 0));
                            let mut go = p.inputs.iter().all(|toks| one(toks.clone(), &mut pumped));
                            if go && p.sentences.1 > 0 {
                                let (deep, cap) = p.sentences;
                                let (deep, cap) = if th { (deep + 1, cap * 4) } else { (deep, cap) };
                                let words = sent::Gen::new(&p.alphabet, deep, cap).of(&(p.grammar)());
                                let limit = if th { 100_000 } else { 6_000 };
                                no_sentence = words.is_empty();
                                let words: Vec<_> = words.into_iter().filter(|w| w.len() < p.longest).collect();
                                sent::edits(&words, &p.alphabet, limit, &mut |toks| {
                                    go = one(toks, &mut edits);
                                    go
                                });
                            }
                            if go && left > 0 {
                                let limit = if th { 200_000 } else { 20_000 };
                                explore::pumps(&p.alphabet, pump.0, pump.1, pump.2, limit, &mut |toks| {
                                    left -= 1;
                                    one(toks, &mut pumped) && left > 0
                                });
                            }
                            st.pumped += pumped.0;
                            st.edits += edits.0;
                            st.edits_ok += edits.1;
                            st.no_sentence += u64::from(no_sentence);
                        }
                        env.far.set(false);
                        'around: for (u, w) in &p.around {
                            if bad.is_some() || stop.load(SeqCst) {
                                break;
                            }
                            for c in 0..p.scalars {
                                if p.scalars > 256 && std::char::from_u32(c).is_none() {
                                    continue;
                                }
                                st.pumped += 1;
                                let mut toks = u.clone();
                                toks.push(c);
                                toks.extend(w);
                                if let Err(msg) = fixed(&env, i, &toks, &mut st) {
                                    bad = Some(Failed { toks, eof: true, msg });
                                    break 'around;
                                }
                                if c % 4096 == 0 && stop.load(SeqCst) {
                                    break;
                                }
                            }
                        }
                        let mut r = result.lock().unwrap();
                        r.stats.add(&st);
                        if i % (progs.len() / 6 + 1) == 0 {
                            r.samples.push(format!(
                                "{}: {} tokens {}; all sources of up to {} elements{}, {} behaviours, {} executions",
                                p.id,
                                p.text.replace('\n', " "),
                                sample,
                                st.len,
                                if st.closed { " (complete)" } else { "" },
                                st.leaves,
                                st.execs
                            ));
                        }
                        if let Some(f) = bad {
                            let again = fixed(&env, i, &f.toks, &mut Stats::default());
                            let note = if again.is_err() { "" } else { " [seen once; the same input did not show it again]" };
                            let dots = if f.eof { "" } else { ", and whatever follows" };
                            r.violations.push(Violation {
                                prog: p.id.clone(),
                                toks: f.toks.clone(),
                                msg: format!("{}\n  input {}{}\n  {}{}", p.text, show_toks(&f.toks), dots, f.msg, note),
                            });
                            if r.violations.len() >= 3 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    let mut fine = true;
    for t in threads {
        if let Err(e) = t.join() {
            fine = false;
            eprintln!("worker failed: {}", show(&panic_res(e)));
        }
    }
    let mut r = result.lock().unwrap();
    r.violations.sort_by(|a, b| (a.toks.len(), &a.prog).cmp(&(b.toks.len(), &b.prog)));
    r.samples.sort();
    let _ = live::created();
    if let Some(o) = &a.out {
        write_report(o, &r);
    }
    for v in &r.violations {
        println!("{}: {}", v.prog, v.msg);
    }
    println!(
        "{}: {} programs, {} behaviours, {} executions, ok {} err {} empty {} unspec {}",
        cfg.property, r.stats.programs, r.stats.leaves, r.stats.execs, r.stats.ok, r.stats.err, r.stats.empty, r.stats.unspec
    );
    std::process::exit(if !fine {
        2
    } else if r.violations.is_empty() {
        0
    } else {
        1
    });
}
