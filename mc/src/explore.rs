//! Exhaustive depth-first exploration of the environment's behaviours, by increasing length.
use crate::tape::{Tape, TapeRc, Tok};
use crate::{alloc, crumb};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub nodes: u64,
    pub leaves: u64,
    pub edges: u64,
    /// executions of the code under test
    pub execs: u64,
    pub pumped: u64,
    /// sentences and inputs one edit away, and how many the grammar accepts
    pub edits: u64,
    pub edits_ok: u64,
    pub no_sentence: u64,
    pub ok: u64,
    pub err: u64,
    pub empty: u64,
    pub unspec: u64,
    /// every source of at most this length has been explored
    pub len: usize,
    /// ... and no longer source behaves differently (the tree ended by itself)
    pub closed: bool,
    pub programs: u64,
    pub closed_programs: u64,
    pub min_len: usize,
    pub max_len: usize,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        if self.programs == 0 {
            self.min_len = usize::MAX;
        }
        self.programs += 1;
        self.closed_programs += u64::from(o.closed);
        self.nodes += o.nodes;
        self.leaves += o.leaves;
        self.edges += o.edges;
        self.execs += o.execs;
        self.pumped += o.pumped;
        self.edits += o.edits;
        self.edits_ok += o.edits_ok;
        self.no_sentence += o.no_sentence;
        self.ok += o.ok;
        self.err += o.err;
        self.empty += o.empty;
        self.unspec += o.unspec;
        if !o.closed {
            self.min_len = self.min_len.min(o.len);
        }
        self.max_len = self.max_len.max(o.len);
    }
}

pub struct Failed {
    pub toks: Vec<Tok>,
    pub eof: bool,
    pub msg: String,
}

/// One execution of everything that is compared, on a given tape.
pub type Body<'a> = dyn FnMut(&TapeRc, &mut Stats) -> Result<(), String> + 'a;

/// Explores all sources over `alphabet` up to the greatest length whose tree has at most
/// about `budget` leaves. `stop` is asked between executions.
pub fn tapes(
    prog: usize,
    alphabet: &[Tok],
    budget: u64,
    max_len: usize,
    stop: &dyn Fn() -> bool,
    body: &mut Body<'_>,
) -> (Stats, Option<Failed>) {
    let mut total = Stats::default();
    let mut last = 1u64;
    let mut len = 0;
    loop {
        let tape: TapeRc = Rc::new(RefCell::new(Tape::new(alphabet, len)));
        let mut st = Stats::default();
        loop {
            tape.borrow_mut().begin();
            crumb::begin(prog);
            alloc::reset();
            let r = body(&tape, &mut st);
            crumb::end();
            st.leaves += 1;
            if let Err(msg) = r {
                let t = tape.borrow();
                total.leaves += st.leaves;
                total.execs += st.execs;
                return (total, Some(Failed { toks: t.toks.clone(), eof: t.eof, msg }));
            }
            if stop() {
                return (total, None);
            }
            let more = tape.borrow_mut().advance();
            match more {
                Ok(true) => (),
                Ok(false) => break,
                Err(msg) => {
                    let t = tape.borrow();
                    total.leaves += st.leaves;
                    total.execs += st.execs;
                    return (total, Some(Failed { toks: t.toks.clone(), eof: t.eof, msg }));
                }
            }
        }
        let t = tape.borrow();
        st.nodes = t.nodes;
        st.edges = t.edges;
        // the tree of this length contains those of the shorter ones
        let execs = total.execs + st.execs;
        total = st;
        total.execs = execs;
        total.len = len;
        if !t.cut {
            total.closed = true;
            return (total, None);
        }
        let growth = (total.leaves as f64 / last as f64).max(1.05);
        if len >= 2 && (total.leaves as f64) * growth > budget as f64 || len >= max_len {
            return (total, None);
        }
        last = total.leaves;
        len += 1;
    }
}

/// Words of length `min` to `max`.
fn words(alphabet: &[Tok], min: usize, max: usize) -> Vec<Vec<Tok>> {
    let mut all = vec![];
    let mut level: Vec<Vec<Tok>> = vec![vec![]];
    for l in 0..=max {
        if l >= min {
            all.extend(level.iter().cloned());
        }
        if l < max {
            level = level
                .iter()
                .flat_map(|w| {
                    alphabet.iter().map(move |t| {
                        let mut w = w.clone();
                        w.push(*t);
                        w
                    })
                })
                .collect();
        }
    }
    all
}

/// Gives `each` all `u v^k w` with `u`, `w` of length up to `ends` and `v` of length 1 to
/// `units`, until it says no. Shorter ends and then shorter units where an alphabet would give
/// more than `limit`.
pub fn pumps(
    alphabet: &[Tok],
    ends: usize,
    units: usize,
    ks: &[usize],
    limit: usize,
    each: &mut dyn FnMut(Vec<Tok>) -> bool,
) {
    let count = |min: usize, max: usize| -> usize { (min..=max).map(|l| alphabet.len().pow(l as u32)).sum() };
    let (mut ends, mut units) = (ends, units);
    loop {
        let e = count(0, ends);
        let n = count(1, units).saturating_mul(e).saturating_mul(e).saturating_mul(ks.len());
        if n <= limit || ends == 0 && units <= 1 {
            break;
        }
        if ends > 0 && (units <= 1 || ends >= units) || units <= 1 {
            ends -= 1;
        } else {
            units -= 1;
        }
    }
    let (vs, us) = (words(alphabet, 1, units), words(alphabet, 0, ends));
    for v in &vs {
        for u in &us {
            for w in &us {
                for k in ks {
                    let mut x = Vec::with_capacity(u.len() + v.len() * k + w.len());
                    x.extend(u);
                    for _ in 0..*k {
                        x.extend(v);
                    }
                    x.extend(w);
                    if !each(x) {
                        return;
                    }
                }
            }
        }
    }
}
