//! Sentences of a grammar, one variation at a time, and everything one edit away from them:
//! a second bounded space of inputs, which reaches behind long fixed parts.
use crate::spec::{EnumG, FieldKind, Gr, StructG, Trail, G};
use crate::tape::Tok;

type W = Vec<Tok>;

pub struct Gen {
    pub alphabet: W,
    /// how deep nonterminals may nest
    pub deep: usize,
    /// sentences kept of each part
    pub cap: usize,
    depth: usize,
}

fn uniq(v: Vec<W>, cap: usize) -> Vec<W> {
    let mut r: Vec<W> = vec![];
    for w in v {
        if r.len() >= cap {
            break;
        }
        if !r.contains(&w) {
            r.push(w);
        }
    }
    r
}

/// Everything in a row: all parts as usual, each part varied alone, and all parts varied.
fn row(parts: &[Vec<W>], cap: usize) -> Vec<W> {
    if parts.iter().any(|p| p.is_empty()) {
        return vec![];
    }
    let with = |f: &dyn Fn(usize) -> usize| -> W {
        let mut w = vec![];
        for (i, p) in parts.iter().enumerate() {
            w.extend(&p[f(i) % p.len()]);
        }
        w
    };
    let mut r = vec![with(&|_| 0)];
    for k in 1..3 {
        r.push(with(&|_| k));
    }
    for j in 1..cap {
        for (i, p) in parts.iter().enumerate() {
            if j < p.len() {
                r.push(with(&|x| if x == i { j } else { 0 }));
            }
        }
    }
    uniq(r, cap)
}

impl Gen {
    pub fn new(alphabet: &[Tok], deep: usize, cap: usize) -> Self {
        Gen { alphabet: alphabet.to_vec(), deep, cap, depth: 0 }
    }

    pub fn of(&mut self, g: &G) -> Vec<W> {
        let cap = self.cap;
        let many = matches!(g, G::Many(_));
        match g {
            G::Lit(l, _) | G::Tag(l) => vec![l.clone()],
            G::One(set) => set.iter().take(3).map(|t| vec![*t]).collect(),
            G::Any(set) | G::Any1(set) => {
                let mut r = vec![];
                if let (Some(a), Some(b)) = (set.first(), set.last()) {
                    r.push(vec![*a]);
                    r.push(vec![*b, *a, *b]);
                }
                if matches!(g, G::Any(_)) {
                    r.push(vec![]);
                }
                uniq(r, cap)
            }
            G::Not1(set) => {
                let out: W = self.alphabet.iter().copied().filter(|t| !set.contains(t)).collect();
                if out.is_empty() {
                    vec![]
                } else {
                    uniq(vec![vec![out[0]], out], cap)
                }
            }
            G::Space => vec![vec![0x20], vec![0x09]],
            G::White => vec![vec![0x20], vec![0x0a], vec![0x0d, 0x0a], vec![0x09]],
            G::LineEnd => vec![vec![0x0a], vec![0x0d, 0x0a]],
            G::End => vec![vec![]],
            G::AnyTok => self.alphabet.iter().take(3).map(|t| vec![*t]).collect(),
            G::Never => vec![],
            G::Opt(g) => {
                let mut r = self.of(g);
                r.insert(r.len().min(1), vec![]);
                uniq(r, cap)
            }
            G::Many(g) | G::Many1(g) => {
                let one = self.of(g);
                if one.is_empty() {
                    return if many { vec![vec![]] } else { vec![] };
                }
                let mut r = vec![one[0].clone(), [&one[0][..], &one[one.len() - 1][..]].concat()];
                if many {
                    r.push(vec![]);
                }
                r.push(one.concat());
                r.extend(one.iter().skip(1).cloned());
                r.push([&one[0][..], &one[0][..], &one[0][..]].concat());
                uniq(r, cap)
            }
            G::Arr(n, g) => {
                let one = self.of(g);
                row(&vec![one; *n], cap)
            }
            G::Boxed(g) | G::Map(g, _) => self.of(g),
            G::Seq(a, b) => {
                let p = [self.of(a), self.of(b)];
                row(&p, cap)
            }
            G::Alt(a, b) => {
                let mut r = self.of(a);
                let s = self.of(b);
                // one of each in turn
                for (i, w) in s.into_iter().enumerate() {
                    let at = (2 * i + 1).min(r.len());
                    r.insert(at, w);
                }
                uniq(r, cap)
            }
            G::Struct(s) => self.strukt(s, &[]),
            G::Enum(e) => self.enumm(e),
            G::List(l) => {
                let ig: Vec<&Gr> = l.ignore.iter().collect();
                self.list(&l.elem, &l.sep, l.trail, &ig)
            }
            G::Ref(f) => {
                if self.depth >= self.deep {
                    return vec![];
                }
                self.depth += 1;
                let r = self.of(&f());
                self.depth -= 1;
                r
            }
        }
    }

    fn opt(&mut self, g: &Option<Gr>) -> Vec<W> {
        match g {
            Some(g) => self.of(g),
            None => vec![vec![]],
        }
    }

    /// Nothing, or ignored tokens.
    fn gap(&mut self, ignore: &[&Gr]) -> Vec<W> {
        let mut r = vec![vec![]];
        let mut all = vec![];
        for g in ignore {
            let w = self.of(g);
            if let Some(w) = w.first() {
                all.push(w.clone());
            }
        }
        if !all.is_empty() {
            let once = all.concat();
            all.reverse();
            let back = all.concat();
            r.push([&once[..], &back[..]].concat());
            r.extend(all.iter().cloned());
        }
        uniq(r, self.cap)
    }

    fn strukt(&mut self, s: &StructG, outer: &[&Gr]) -> Vec<W> {
        let ig: Vec<&Gr> = s.ignore.iter().chain(outer.iter().copied()).collect();
        let gap = self.gap(&ig);
        let mut parts = vec![];
        let mut add = |w: Vec<W>| {
            parts.push(w);
            parts.push(gap.clone());
        };
        if s.prefix.is_some() {
            add(self.opt(&s.prefix));
        }
        for f in &s.fields {
            if f.prefix.is_some() {
                add(self.opt(&f.prefix));
            }
            match &f.kind {
                FieldKind::Plain(g, _) => add(self.of(g)),
                FieldKind::List { elem, sep, trail, .. } => add(self.list(elem, sep, *trail, &ig)),
            }
            if f.suffix.is_some() {
                add(self.opt(&f.suffix));
            }
        }
        if s.suffix.is_some() {
            add(self.opt(&s.suffix));
        }
        row(&parts, self.cap)
    }

    fn enumm(&mut self, e: &EnumG) -> Vec<W> {
        let ig: Vec<&Gr> = e.ignore.iter().collect();
        let gap = self.gap(&ig);
        let mut body = vec![];
        let each: Vec<Vec<W>> = e.variants.iter().map(|v| self.strukt(v, &ig)).collect();
        for j in 0..self.cap {
            for v in &each {
                if let Some(w) = v.get(j) {
                    body.push(w.clone());
                }
            }
        }
        let body = uniq(body, self.cap.max(e.variants.len() * 2));
        let mut parts = vec![];
        if e.prefix.is_some() {
            parts.push(self.opt(&e.prefix));
            parts.push(gap.clone());
        }
        parts.push(body);
        if e.suffix.is_some() {
            parts.push(self.opt(&e.suffix));
            parts.push(gap);
        }
        let cap = self.cap.max(e.variants.len() * 2);
        row(&parts, cap)
    }

    fn list(&mut self, elem: &Gr, sep: &Option<Gr>, trail: Trail, ignore: &[&Gr]) -> Vec<W> {
        let es = self.of(elem);
        let ss = self.opt(sep);
        let gap = self.gap(ignore);
        let mut r = vec![];
        if !es.is_empty() && !ss.is_empty() {
            for spaced in [false, true].iter() {
                let sp: &[Tok] = if *spaced { &gap[gap.len().min(2) - 1] } else { &[] };
                for n in [2usize, 1, 3].iter() {
                    for end in [false, true].iter() {
                        let mut w = vec![];
                        for i in 0..*n {
                            w.extend(&es[if *spaced { i } else { 0 } % es.len()]);
                            w.extend(sp);
                            if sep.is_some() && (i + 1 < *n || *end) {
                                w.extend(&ss[i % ss.len()]);
                                w.extend(sp);
                            }
                        }
                        r.push(w);
                    }
                }
            }
            if trail == Trail::Yes {
                // the sentence as it should be comes first
                r.swap(0, 1);
            }
        }
        r.insert(r.len().min(2), vec![]);
        r.extend(es.into_iter().skip(1));
        uniq(r, self.cap)
    }
}

/// All words at edit distance at most one from `words`, each given once per way of reaching it.
/// Stops after `limit`, or when `each` says no.
pub fn edits(words: &[W], alphabet: &[Tok], limit: usize, each: &mut dyn FnMut(W) -> bool) {
    let mut left = limit;
    let mut go = |w: W| -> bool {
        if left == 0 {
            return false;
        }
        left -= 1;
        each(w)
    };
    for w in words {
        if !go(w.clone()) {
            return;
        }
    }
    for w in words {
        for i in 0..=w.len() {
            // cut off, and with something else instead of what follows
            if i < w.len() && !go(w[..i].to_vec()) {
                return;
            }
            for t in alphabet {
                let mut x = w.clone();
                x.insert(i, *t);
                if !go(x) {
                    return;
                }
                if i < w.len() && w[i] != *t {
                    let mut x = w.clone();
                    x[i] = *t;
                    if !go(x) {
                        return;
                    }
                }
            }
            if i + 1 < w.len() {
                let mut x = w.clone();
                x.remove(i);
                if !go(x) {
                    return;
                }
                let mut x = w.clone();
                x.swap(i, i + 1);
                if x[i] != x[i + 1] && !go(x) {
                    return;
                }
            }
        }
    }
}
