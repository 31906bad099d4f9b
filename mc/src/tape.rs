//! The environment: a token source whose every answer is a choice of the explorer.
use std::cell::RefCell;
use std::rc::Rc;

pub type Tok = u32;

/// What a livelocked execution panics with.
pub struct Livelock;

/// Reads at end of input allowed in one execution before it counts as livelocked.
pub const EOF_READS: usize = 20_000;

pub struct Tape {
    pub alphabet: Vec<Tok>,
    pub maxlen: usize,
    /// tokens decided so far
    pub toks: Vec<Tok>,
    /// the source has been decided to end after `toks`
    pub eof: bool,
    /// no new decisions: the source is cut off where it is
    pub frozen: bool,
    choices: Vec<(u16, u16)>,
    at: usize,
    pub nodes: u64,
    pub edges: u64,
    /// the length bound has cut the tree off somewhere
    pub cut: bool,
}

pub type TapeRc = Rc<RefCell<Tape>>;

impl Tape {
    pub fn new(alphabet: &[Tok], maxlen: usize) -> Self {
        Tape {
            alphabet: alphabet.to_vec(),
            maxlen,
            toks: vec![],
            eof: false,
            frozen: false,
            choices: vec![],
            at: 0,
            nodes: 0,
            edges: 0,
            cut: false,
        }
    }

    /// A tape with a fixed content (replay, pumped families).
    pub fn fixed(toks: &[Tok]) -> Self {
        let mut t = Tape::new(&[], 0);
        t.toks = toks.to_vec();
        t.eof = true;
        t
    }

    /// Token `i` of the source; decides it if it has not been asked for before.
    /// Choice 0 is end of input, so that shorter inputs come first.
    pub fn get(&mut self, i: usize) -> Option<Tok> {
        if i < self.toks.len() {
            return Some(self.toks[i]);
        }
        if self.eof || self.frozen {
            return None;
        }
        assert_eq!(i, self.toks.len(), "source is read in order");
        if self.toks.len() >= self.maxlen {
            self.eof = true;
            self.cut = true;
            crate::crumb::eof();
            return None;
        }
        let n = self.alphabet.len() as u16 + 1;
        let c = if self.at < self.choices.len() {
            let (c, m) = self.choices[self.at];
            assert_eq!(m, n, "harness: the alphabet is fixed");
            c
        } else {
            self.choices.push((0, n));
            self.nodes += 1;
            self.edges += 1;
            0
        };
        self.at += 1;
        if c == 0 {
            self.eof = true;
            crate::crumb::eof();
            None
        } else {
            let t = self.alphabet[c as usize - 1];
            self.toks.push(t);
            crate::crumb::push(t);
            Some(t)
        }
    }

    pub fn begin(&mut self) {
        self.toks.clear();
        self.eof = false;
        self.frozen = false;
        self.at = 0;
    }

    /// Next leaf in depth-first order; false when the tree is exhausted. An error if the run
    /// that ended did not get as far as the one before it, on the same tokens: something
    /// else than the tokens decides.
    pub fn advance(&mut self) -> Result<bool, String> {
        if self.at != self.choices.len() {
            return Err("asks for fewer elements than it did when given the same ones just before".into());
        }
        while let Some((c, n)) = self.choices.pop() {
            if c + 1 < n {
                self.choices.push((c + 1, n));
                self.edges += 1;
                return Ok(true);
            }
        }
        Ok(false)
    }
}

/// Tokens of the checked parsers.
pub trait TokT: Clone + 'static {
    fn from_tok(t: Tok) -> Self;
    fn into_tok(self) -> Tok;
    /// one that is not otherwise used
    const JUNK: Tok = 'j' as u32;
}
impl TokT for char {
    fn from_tok(t: Tok) -> Self {
        std::char::from_u32(t).expect("token is a char")
    }
    fn into_tok(self) -> Tok {
        self as u32
    }
}
impl TokT for u8 {
    fn from_tok(t: Tok) -> Self {
        assert!(t < 256);
        t as u8
    }
    fn into_tok(self) -> Tok {
        self.into()
    }
}

/// What happens while the source is being asked for an element: another parse, or another thread's turn.
pub type OnRead = Box<dyn FnMut()>;
#[thread_local]
static HOOKED: std::cell::Cell<bool> = std::cell::Cell::new(false);
thread_local! {
    static ON_READ: RefCell<Option<OnRead>> = RefCell::new(None);
}
/// Sets what happens from now on, on this thread; returns what did before.
pub fn on_read(f: Option<OnRead>) -> Option<OnRead> {
    HOOKED.set(f.is_some());
    ON_READ.with(|h| std::mem::replace(&mut *h.borrow_mut(), f))
}
fn read_hook() {
    if HOOKED.get() {
        let mut f = on_read(None);
        if let Some(f) = &mut f {
            f();
        }
        on_read(f);
    }
}

/// The source iterator handed to the code under test: `junk` fixed tokens, then the tape.
pub struct Src<T> {
    tape: TapeRc,
    junk: Vec<Tok>,
    at: usize,
    eof_reads: usize,
    stats: Rc<std::cell::Cell<(usize, usize)>>,
    _t: std::marker::PhantomData<T>,
}

impl<T> Src<T> {
    pub fn new(tape: &TapeRc, junk: Vec<Tok>) -> Self {
        Src {
            tape: tape.clone(),
            junk,
            at: 0,
            eof_reads: 0,
            stats: Rc::new(std::cell::Cell::new((0, 0))),
            _t: std::marker::PhantomData,
        }
    }
    /// (tape elements asked for, counting a read at the end as one more; total next() calls)
    pub fn stats(&self) -> Rc<std::cell::Cell<(usize, usize)>> {
        self.stats.clone()
    }
}

impl<T: TokT> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let (asked, calls) = self.stats.get();
        if self.at < self.junk.len() {
            let t = self.junk[self.at];
            self.at += 1;
            self.stats.set((asked, calls + 1));
            return Some(T::from_tok(t));
        }
        let i = self.at - self.junk.len();
        if !self.tape.borrow().frozen {
            read_hook();
        }
        let (r, frozen) = {
            let mut t = self.tape.borrow_mut();
            (t.get(i), t.frozen)
        };
        self.stats.set((asked.max(i + 1), calls + 1));
        match r {
            Some(t) => {
                self.at += 1;
                Some(T::from_tok(t))
            }
            None if frozen => None,
            None => {
                self.eof_reads += 1;
                if self.eof_reads > EOF_READS {
                    std::panic::panic_any(Livelock);
                }
                None
            }
        }
    }
}
