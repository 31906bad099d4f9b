//! The reference model: what a grammar means, as an interpreter over the environment tape.
use crate::prims::small;
use crate::tape::{TapeRc, Tok};
use crate::val::Val;
use std::rc::Rc;

pub type Gr = Rc<G>;

/// How a parsed value becomes the value of a field.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cv {
    Id,
    /// a number below 6 written in base 4, or an error
    Small,
    /// a decimal number that fits usize, or an error
    Usize,
    /// a run of tokens as a list of tokens (bytes)
    Toks,
    /// drops the name of the single-field record around the value
    Unwrap,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trail {
    No,
    Yes,
    Maybe,
}

pub enum G {
    /// these tokens, stops reading at the first mismatch
    Lit(Vec<Tok>, LitVal),
    /// these tokens, may read as many as there are in it before failing
    Tag(Vec<Tok>),
    One(Vec<Tok>),
    Any(Vec<Tok>),
    Any1(Vec<Tok>),
    Not1(Vec<Tok>),
    Space,
    White,
    LineEnd,
    End,
    AnyTok,
    Never,
    Opt(Gr),
    Many(Gr),
    Many1(Gr),
    Arr(usize, Gr),
    Boxed(Gr),
    Seq(Gr, Gr),
    Alt(Gr, Gr),
    Struct(StructG),
    Enum(EnumG),
    List(ListG),
    /// a value converted by the harness after parsing
    Map(Gr, Cv),
    /// a nonterminal, for recursive grammars
    Ref(fn() -> Gr),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LitVal {
    Unit,
    Tok,
    Str,
}

pub struct ListG {
    pub elem: Gr,
    pub sep: Option<Gr>,
    pub trail: Trail,
    pub ignore: Vec<Gr>,
    pub max: usize,
    pub cv: Cv,
}

pub enum FieldKind {
    Plain(Gr, Cv),
    List { elem: Gr, sep: Option<Gr>, trail: Trail, cv: Cv },
}
pub struct FieldG {
    pub name: &'static str,
    pub prefix: Option<Gr>,
    pub suffix: Option<Gr>,
    pub kind: FieldKind,
}
pub struct StructG {
    /// name of the type or variant
    pub name: &'static str,
    /// tag of the resulting value
    pub tag: &'static str,
    pub prefix: Option<Gr>,
    pub suffix: Option<Gr>,
    pub ignore: Vec<Gr>,
    pub fields: Vec<FieldG>,
}
pub struct EnumG {
    pub name: &'static str,
    pub prefix: Option<Gr>,
    pub suffix: Option<Gr>,
    pub ignore: Vec<Gr>,
    pub variants: Vec<StructG>,
}

/// Words that an error message must contain, from the outermost cause inwards.
#[derive(Clone, PartialEq, Debug)]
pub enum Part {
    Field(&'static str),
    Prefix(&'static str),
    Suffix(&'static str),
    Variants(&'static str),
    Element(usize),
    /// a token parser failed: any message
    Leaf,
    /// a conversion failed: any message
    Conversion,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Val, usize),
    Err(Vec<Part>),
    /// something repeated or optional matched without reading: debug builds panic
    Empty,
    /// outside the stated properties
    Unspec,
}

pub struct Cx<'a> {
    pub tape: &'a TapeRc,
    /// one more than the furthest index asked for
    pub look: usize,
    /// nesting of nonterminals
    pub depth: usize,
    /// some conversion has failed
    pub conv_failed: bool,
    refs: std::collections::HashMap<usize, Gr>,
}

fn has(set: &[Tok], t: Option<Tok>) -> bool {
    t.map_or(false, |t| set.contains(&t))
}

macro_rules! ok {
    ($e:expr) => {
        match $e {
            Out::Ok(v, p) => (v, p),
            other => return other,
        }
    };
}

impl<'a> Cx<'a> {
    pub fn new(tape: &'a TapeRc) -> Self {
        Cx { tape, look: 0, depth: 0, conv_failed: false, refs: Default::default() }
    }
    fn get(&mut self, i: usize) -> Option<Tok> {
        self.look = self.look.max(i + 1);
        self.tape.borrow_mut().get(i)
    }
    fn leaf(&self) -> Out {
        Out::Err(vec![Part::Leaf])
    }

    fn run_of(&mut self, mut p: usize, set: &[Tok], within: bool) -> (Vec<Tok>, usize) {
        let mut v = vec![];
        loop {
            match self.get(p) {
                Some(t) if set.contains(&t) == within => v.push(t),
                _ => return (v, p),
            }
            p += 1;
        }
    }

    pub fn convert(&mut self, v: Val, cv: Cv) -> Option<Val> {
        let r = match (cv, v) {
            (Cv::Id, v) => Some(v),
            (Cv::Small, Val::S(d)) => small(&d).map(Val::N),
            (Cv::Usize, Val::S(d)) => {
                let s: String = d.iter().map(|t| std::char::from_u32(*t).unwrap()).collect();
                // decimal, any number of leading zeros, at most 2^64 - 1, and nothing else
                if !s.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                let s = s.trim_start_matches('0');
                if s.len() > 25 {
                    None
                } else {
                    let n = s.bytes().fold(0u128, |n, b| n * 10 + u128::from(b - b'0'));
                    if n > u128::from(u64::MAX) {
                        None
                    } else {
                        Some(Val::N(n))
                    }
                }
            }
            (Cv::Toks, Val::S(d)) => Some(Val::L(d.into_iter().map(Val::T).collect())),
            (Cv::Unwrap, Val::R(_, mut f)) => {
                assert_eq!(f.len(), 1);
                f.pop()
            }
            (cv, v) => panic!("bad conversion {:?} of {:?}", cv, v),
        };
        if r.is_none() {
            self.conv_failed = true;
        }
        r
    }

    pub fn eval(&mut self, g: &G, pos: usize) -> Out {
        match g {
            G::Lit(l, kind) => {
                for (i, t) in l.iter().enumerate() {
                    if self.get(pos + i) != Some(*t) {
                        return self.leaf();
                    }
                }
                let v = match kind {
                    LitVal::Unit => Val::U,
                    LitVal::Tok => Val::T(l[0]),
                    LitVal::Str => Val::S(l.clone()),
                };
                Out::Ok(v, pos + l.len())
            }
            G::Tag(l) => {
                let mut same = true;
                for (i, t) in l.iter().enumerate() {
                    match self.get(pos + i) {
                        Some(u) => same &= u == *t,
                        None => return self.leaf(),
                    }
                }
                if same {
                    Out::Ok(Val::U, pos + l.len())
                } else {
                    self.leaf()
                }
            }
            G::One(set) => {
                let t = self.get(pos);
                if has(set, t) {
                    Out::Ok(Val::T(t.unwrap()), pos + 1)
                } else {
                    self.leaf()
                }
            }
            G::AnyTok => match self.get(pos) {
                Some(t) => Out::Ok(Val::T(t), pos + 1),
                None => self.leaf(),
            },
            G::Never => {
                self.get(pos);
                self.leaf()
            }
            G::End => match self.get(pos) {
                None => Out::Ok(Val::U, pos),
                Some(_) => self.leaf(),
            },
            G::Any(set) => {
                let (v, p) = self.run_of(pos, set, true);
                Out::Ok(Val::S(v), p)
            }
            G::Any1(set) | G::Not1(set) => {
                let within = matches!(g, G::Any1(_));
                let (v, p) = self.run_of(pos, set, within);
                if v.is_empty() {
                    self.leaf()
                } else {
                    Out::Ok(Val::S(v), p)
                }
            }
            G::Space | G::White | G::LineEnd => {
                let blank = !matches!(g, G::LineEnd);
                let newline = !matches!(g, G::Space);
                match self.get(pos) {
                    Some(0x20) | Some(0x09) if blank => Out::Ok(Val::U, pos + 1),
                    Some(0x0a) if newline => Out::Ok(Val::U, pos + 1),
                    Some(0x0d) if newline => {
                        if self.get(pos + 1) == Some(0x0a) {
                            Out::Ok(Val::U, pos + 2)
                        } else {
                            self.leaf()
                        }
                    }
                    _ => self.leaf(),
                }
            }
            G::Opt(g) => match self.eval(g, pos) {
                Out::Ok(_, p) if p == pos => Out::Empty,
                Out::Ok(v, p) => Out::Ok(Val::O(Some(Box::new(v))), p),
                Out::Err(_) => Out::Ok(Val::O(None), pos),
                other => other,
            },
            G::Many(g) => self.many(g, vec![], pos),
            G::Many1(g) => {
                let (v, p) = ok!(self.eval(g, pos));
                self.many(g, vec![v], p)
            }
            G::Arr(n, g) => {
                let mut p = pos;
                let mut l = vec![];
                for i in 0..*n {
                    match self.eval(g, p) {
                        Out::Ok(v, q) => {
                            l.push(v);
                            p = q;
                        }
                        Out::Err(mut e) => {
                            e.insert(0, Part::Element(i));
                            return Out::Err(e);
                        }
                        other => return other,
                    }
                }
                Out::Ok(Val::L(l), p)
            }
            G::Boxed(g) => self.eval(g, pos),
            G::Seq(a, b) => {
                let (v, p) = ok!(self.eval(a, pos));
                let (w, p) = ok!(self.eval(b, p));
                Out::Ok(Val::L(vec![v, w]), p)
            }
            G::Alt(a, b) => match self.eval(a, pos) {
                Out::Err(_) => self.eval(b, pos),
                other => other,
            },
            G::Struct(s) => self.strukt(s, &[], pos),
            G::Enum(e) => self.enumm(e, pos),
            G::List(l) => {
                let ignore: Vec<&Gr> = l.ignore.iter().collect();
                self.list(&l.elem, &l.sep, l.trail, &ignore, l.max, l.cv, pos)
            }
            G::Map(g, cv) => {
                let (v, p) = ok!(self.eval(g, pos));
                match self.convert(v, *cv) {
                    Some(v) => Out::Ok(v, p),
                    None => Out::Err(vec![Part::Conversion]),
                }
            }
            G::Ref(f) => {
                self.depth += 1;
                assert!(self.depth < 100_000, "left recursion in a reference grammar");
                let g = self.refs.entry(*f as usize).or_insert_with(|| f()).clone();
                let r = self.eval(&g, pos);
                self.depth -= 1;
                r
            }
        }
    }

    fn many(&mut self, g: &G, mut l: Vec<Val>, mut p: usize) -> Out {
        loop {
            match self.eval(g, p) {
                Out::Ok(_, q) if q == p => return Out::Empty,
                Out::Ok(v, q) => {
                    l.push(v);
                    p = q;
                }
                Out::Err(_) => return Out::Ok(Val::L(l), p),
                other => return other,
            }
        }
    }

    /// Skips ignored tokens. `Err` carries Empty / Unspec.
    fn skip(&mut self, ignore: &[&Gr], mut p: usize) -> Result<usize, Out> {
        'again: loop {
            for g in ignore {
                match self.eval(g, p) {
                    Out::Ok(_, q) if q == p => return Err(Out::Empty),
                    Out::Ok(_, q) => {
                        p = q;
                        continue 'again;
                    }
                    Out::Err(_) => (),
                    other => return Err(other),
                }
            }
            return Ok(p);
        }
    }

    fn part(&mut self, g: &Option<Gr>, ignore: &[&Gr], p: usize, e: Part) -> Result<usize, Out> {
        match g {
            None => Ok(p),
            Some(g) => match self.eval(g, p) {
                Out::Ok(_, q) => self.skip(ignore, q),
                Out::Err(_) => Err(Out::Err(vec![e])),
                other => Err(other),
            },
        }
    }

    fn strukt(&mut self, s: &StructG, more_ignore: &[Gr], pos: usize) -> Out {
        match self.try_struct(s, more_ignore, pos) {
            Ok((v, p)) => Out::Ok(v, p),
            Err(o) => o,
        }
    }

    fn try_struct(&mut self, s: &StructG, more_ignore: &[Gr], pos: usize) -> Result<(Val, usize), Out> {
        let ignore: Vec<&Gr> = s.ignore.iter().chain(more_ignore).collect();
        let mut p = self.part(&s.prefix, &ignore, pos, Part::Prefix(s.name))?;
        let mut vals = vec![];
        for f in &s.fields {
            p = self.part(&f.prefix, &ignore, p, Part::Prefix(f.name))?;
            let v = match &f.kind {
                FieldKind::Plain(g, cv) => match self.eval(g, p) {
                    Out::Ok(v, q) => {
                        p = q;
                        match self.convert(v, *cv) {
                            Some(v) => v,
                            None => return Err(Out::Err(vec![Part::Conversion])),
                        }
                    }
                    Out::Err(mut e) => {
                        e.insert(0, Part::Field(f.name));
                        return Err(Out::Err(e));
                    }
                    other => return Err(other),
                },
                FieldKind::List { elem, sep, trail, cv } => {
                    match self.list(elem, sep, *trail, &ignore, usize::MAX, *cv, p) {
                        Out::Ok(v, q) => {
                            p = q;
                            v
                        }
                        other => return Err(other),
                    }
                }
            };
            p = self.skip(&ignore, p)?;
            p = self.part(&f.suffix, &ignore, p, Part::Suffix(f.name))?;
            vals.push(v);
        }
        p = self.part(&s.suffix, &ignore, p, Part::Suffix(s.name))?;
        Ok((Val::R(s.tag.to_string(), vals), p))
    }

    fn enumm(&mut self, e: &EnumG, pos: usize) -> Out {
        let ignore: Vec<&Gr> = e.ignore.iter().collect();
        let p = match self.part(&e.prefix, &ignore, pos, Part::Prefix(e.name)) {
            Ok(p) => p,
            Err(o) => return o,
        };
        for v in &e.variants {
            match self.strukt(v, &e.ignore, p) {
                Out::Ok(v, q) => {
                    return match self.part(&e.suffix, &ignore, q, Part::Suffix(e.name)) {
                        Ok(q) => Out::Ok(v, q),
                        Err(o) => o,
                    }
                }
                Out::Err(_) => (),
                other => return other,
            }
        }
        Out::Err(vec![Part::Variants(e.name)])
    }

    #[allow(clippy::too_many_arguments)]
    fn list(
        &mut self,
        elem: &Gr,
        sep: &Option<Gr>,
        trail: Trail,
        ignore: &[&Gr],
        max: usize,
        cv: Cv,
        pos: usize,
    ) -> Out {
        let mut l = vec![];
        // `p`: what has been consumed; `q`: where the attempt is
        let mut p = pos;
        let mut q = pos;
        macro_rules! skip {
            () => {
                match self.skip(ignore, q) {
                    Ok(q) => q,
                    Err(o) => return o,
                }
            };
        }
        while l.len() < max {
            let before = p;
            let (v, r) = match self.eval(elem, q) {
                Out::Ok(v, r) => (v, r),
                Out::Err(_) => break,
                other => return other,
            };
            q = r;
            let counted;
            let v = self.convert(v, cv);
            match (sep, trail) {
                (None, _) | (Some(_), Trail::No) => {
                    counted = true;
                    p = q;
                    match v {
                        Some(v) => l.push(v),
                        None => return Out::Err(vec![Part::Conversion]),
                    }
                    if l.len() == max {
                        break;
                    }
                    q = skip!();
                    if let Some(sep) = sep {
                        match self.eval(sep, q) {
                            Out::Ok(_, r) => q = r,
                            Out::Err(_) => break,
                            other => return other,
                        }
                        q = skip!();
                    }
                }
                (Some(sep), Trail::Yes) => {
                    if v.is_none() {
                        // whether an element without its separator is converted is not specified
                        q = skip!();
                        return match self.eval(sep, q) {
                            Out::Ok(..) => Out::Err(vec![Part::Conversion]),
                            Out::Err(_) => Out::Unspec,
                            other => other,
                        };
                    }
                    q = skip!();
                    match self.eval(sep, q) {
                        Out::Ok(_, r) => q = r,
                        Out::Err(_) => break,
                        other => return other,
                    }
                    q = skip!();
                    counted = true;
                    p = q;
                    l.push(v.unwrap());
                }
                (Some(sep), Trail::Maybe) => {
                    counted = true;
                    match v {
                        Some(v) => l.push(v),
                        None => return Out::Err(vec![Part::Conversion]),
                    }
                    q = skip!();
                    p = q;
                    match self.eval(sep, q) {
                        Out::Ok(_, r) => q = r,
                        Out::Err(_) => break,
                        other => return other,
                    }
                    q = skip!();
                    p = q;
                }
            }
            if counted && q == before && l.len() > 1 {
                // nothing was read for an element, its separator and what is ignored
                return if max == usize::MAX { Out::Empty } else { Out::Unspec };
            }
        }
        Out::Ok(Val::L(l), p)
    }
}

// ---- constructors used by the generated reference grammars ----

/// u^i m w^j z
pub fn nest(u: &str, i: usize, m: &str, w: &str, j: usize, z: &str) -> Vec<Tok> {
    toks(&(u.repeat(i) + m + &w.repeat(j) + z))
}
pub fn toks(s: &str) -> Vec<Tok> {
    s.chars().map(|c| c as u32).collect()
}
pub fn c(x: char) -> Gr {
    Rc::new(G::Lit(vec![x as u32], LitVal::Tok))
}
pub fn d(x: char, y: char) -> Gr {
    Rc::new(G::Lit(vec![x as u32, y as u32], LitVal::Str))
}
pub fn w(x: char) -> Gr {
    Rc::new(G::Any1(vec![x as u32]))
}
pub fn m(x: char) -> Gr {
    Rc::new(G::Any(vec![x as u32]))
}
pub fn empty() -> Gr {
    Rc::new(G::Lit(vec![], LitVal::Str))
}
pub fn digits() -> Gr {
    Rc::new(G::Any1(toks("0123")))
}
pub fn g(x: G) -> Gr {
    Rc::new(x)
}
pub fn opt(x: Gr) -> Gr {
    Rc::new(G::Opt(x))
}
pub fn many(x: Gr) -> Gr {
    Rc::new(G::Many(x))
}
pub fn many1(x: Gr) -> Gr {
    Rc::new(G::Many1(x))
}
pub fn arr(n: usize, x: Gr) -> Gr {
    Rc::new(G::Arr(n, x))
}
pub fn boxed(x: Gr) -> Gr {
    Rc::new(G::Boxed(x))
}

pub fn seq(a: Gr, b: Gr) -> Gr {
    Rc::new(G::Seq(a, b))
}
pub fn alt(a: Gr, b: Gr) -> Gr {
    Rc::new(G::Alt(a, b))
}
/// The list functions, with the maximum set for the program.
pub fn li(mode: u8, elem: Gr, sep: Gr, ignore: Gr, cv: Cv) -> Gr {
    Rc::new(G::List(ListG {
        elem,
        sep: if mode == 0 { None } else { Some(sep) },
        trail: match mode {
            2 => Trail::Yes,
            3 => Trail::Maybe,
            _ => Trail::No,
        },
        ignore: vec![ignore],
        max: crate::prims::MAX.with(|m| m.get()),
        cv,
    }))
}
