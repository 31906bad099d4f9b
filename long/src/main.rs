//! Every repeating construct of the library on long inputs.
//!
//! Each case is a family of inputs indexed by a length, and every length of a ladder is run, by
//! parse and by peek, in a thread with an ordinary stack. A case that needs a frame of the stack
//! for each repetition, or time that grows faster than the input, does not get to the end.

use nommy::{bytes, text, vec, Buffer, IntoBuf, Parse, Vec1};

/// What one case read: how many repetitions, and how many tokens
type Got = (usize, usize);

/// counts the tokens of a source that are handed out, and ends at the end
struct Src<T> {
    head: Vec<T>,
    unit: Vec<T>,
    n: usize,
    tail: Vec<T>,
    at: usize,
}

impl<T: Clone> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let i = self.at;
        self.at += 1;
        let (h, u) = (self.head.len(), self.unit.len() * self.n);
        if i < h {
            Some(self.head[i].clone())
        } else if i < h + u {
            Some(self.unit[(i - h) % self.unit.len()].clone())
        } else {
            self.tail.get(i - h - u).cloned()
        }
    }
}

fn src(head: &str, unit: &str, n: usize, tail: &str) -> Src<char> {
    Src { head: head.chars().collect(), unit: unit.chars().collect(), n, tail: tail.chars().collect(), at: 0 }
}

fn bsrc(head: &str, unit: &str, n: usize, tail: &str) -> Src<u8> {
    Src { head: head.into(), unit: unit.into(), n, tail: tail.into(), at: 0 }
}

const REJECTED: &str = "parse rejects";
const PEEK_REJECTED: &str = "peek rejects";

/// parses `P`, and gives the value with the tokens that are left
fn parsed<P: Parse<T>, T: Clone>(s: Src<T>) -> (P, Vec<T>) {
    let mut b = s.into_buf();
    let p = match P::parse(&mut b) {
        Ok(p) => p,
        Err(_) => panic!("{}", REJECTED),
    };
    (p, b.collect())
}

fn peeked<P: Parse<T>, T: Clone>(s: Src<T>) -> Vec<T> {
    let mut b = s.into_buf();
    if !P::peek(&mut b) {
        panic!("{}", PEEK_REJECTED);
    }
    b.collect()
}

struct Case {
    /// the property that says what this gives
    prop: &'static str,
    name: &'static str,
    /// parse and peek the family's member of length n: (repetitions, tokens left)
    parse: fn(usize) -> Got,
    peek: fn(usize) -> usize,
    /// what that ought to give
    want: fn(usize) -> Got,
}

macro_rules! cases {
    ($($prop:ident $name:literal: $ty:ty, $src:expr, $count:expr, $want:expr;)*) => {
        vec![$(Case {
            prop: stringify!($prop),
            name: $name,
            parse: |n| {
                let f: fn(usize) -> _ = $src;
                let (v, left) = parsed::<$ty, _>(f(n));
                let c: fn($ty) -> usize = $count;
                (c(v), left.len())
            },
            peek: |n| {
                let f: fn(usize) -> _ = $src;
                peeked::<$ty, _>(f(n)).len()
            },
            want: $want,
        }),*]
    };
}

type A = text::Tag<"a">;
type Sp = text::Tag<" ">;
type Comma = text::Tag<",">;
type BA = bytes::Tag<b"a">;

#[derive(Parse)]
#[nommy(ignore = Sp)]
struct Ign {
    _a: A,
    _b: text::Tag<"b">,
}

#[derive(Parse)]
#[nommy(ignore = Sp, prefix = text::Tag<"<">, suffix = text::Tag<">">)]
struct IgnFix {
    #[nommy(prefix = text::Tag<"p">, suffix = text::Tag<"s">)]
    _a: A,
}

#[derive(Parse)]
#[nommy(ignore = Sp, ignore = text::Tag<"_">)]
struct IgnTwo(A, A);

#[derive(Parse)]
#[nommy(ignore = Sp, prefix = text::Tag<"<">)]
struct IgnUnit;

#[derive(Parse)]
struct Pair(A, text::Tag<"b">);

#[derive(Parse)]
struct Run {
    _a: Vec1<A>,
    _c: Comma,
}

#[derive(Parse)]
struct Opt(Option<A>, Comma);

#[derive(Parse)]
struct Tail(A, Option<Comma>);

#[derive(Parse)]
struct Plain(#[nommy(inner_parser = A)] Vec<A>);

#[derive(Parse)]
struct Sep {
    #[nommy(seperated_by = Comma, inner_parser = A)]
    l: Vec<A>,
}

#[derive(Parse)]
struct SepTrail {
    #[nommy(seperated_by = Comma, inner_parser = A, trailing = "yes")]
    l: Vec<A>,
}

#[derive(Parse)]
struct SepMaybe {
    #[nommy(seperated_by = Comma, inner_parser = A, trailing = "maybe")]
    l: Vec<A>,
}

#[derive(Parse)]
#[nommy(ignore = Sp)]
struct SepIgn {
    #[nommy(seperated_by = Comma, inner_parser = A)]
    l: Vec<A>,
}

#[derive(Parse)]
#[nommy(ignore = Sp)]
struct PlainIgn {
    #[nommy(inner_parser = A)]
    l: Vec<A>,
}

#[derive(Parse)]
#[nommy(ignore = Sp)]
struct TrailIgn {
    #[nommy(seperated_by = Comma, inner_parser = A, trailing = "yes")]
    l: Vec<A>,
}

#[derive(Parse)]
#[nommy(ignore = Sp)]
struct MaybeIgn {
    #[nommy(seperated_by = Comma, inner_parser = A, trailing = "maybe")]
    l: Vec<A>,
}

#[derive(Parse)]
enum En {
    Ab(A, text::Tag<"b">),
    A(A),
    #[nommy(prefix = text::Tag<"c">)]
    C,
}

/// the library's functions for lists, by `Parse` impls of the harness
macro_rules! by_fn {
    ($($n:ident = $f:ident <$e:ty, $($s:ty)? ; $i:ty>),* $(,)?) => {$(
        struct $n(Vec<$e>);
        impl Parse<char> for $n {
            fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> {
                Ok($n(vec::$f::<$e, $e, $($s,)? $i, char, _>(usize::MAX, input)?))
            }
        }
    )*};
}

by_fn! {
    FPlain = parse_vec<A, ; Sp>,
    FSep = parse_vec_seperated_by<A, Comma ; Sp>,
    FTrail = parse_vec_seperated_by_trailing<A, Comma ; Sp>,
    FMaybe = parse_vec_seperated_by_maybe_trailing<A, Comma ; Sp>,
}

fn cases() -> Vec<Case> {
    let mut all = cases! {
        C05 "vec": Vec<A>, |n| src("", "a", n, ""), |v| v.len(), |n| (n, 0);
        C05 "vec, more": Vec<A>, |n| src("", "a", n, "b"), |v| v.len(), |n| (n, 1);
        C05 "vec of bytes": Vec<BA>, |n| bsrc("", "a", n, "b"), |v| v.len(), |n| (n, 1);
        C05 "vec of pairs": Vec<Pair>, |n| src("", "ab", n, "a"), |v| v.len(), |n| (n, 1);
        C05 "vec1": Vec1<A>, |n| src("", "a", n, "b"), |v| Vec::from(v).len(), |n| (n, 1);
        C05 "option of vec1": Option<Vec1<A>>, |n| src("", "a", n, "b"), |v| Vec::from(v.unwrap()).len(), |n| (n, 1);
        C05 "boxed vec": Box<Vec<Box<A>>>, |n| src("", "a", n, "b"), |v| v.len(), |n| (n, 1);
        C05 "vec of vec1": Vec<Run>, |n| src("", "a", n, ",b"), |v| v.into_iter().map(|p| Vec::from(p._a).len()).sum(), |n| (n, 1);
        C05 "vec of options of vec1": Vec<Opt>, |n| src("", "a,", n, "b"), |v| v.len(), |n| (n, 1);
        C05 "vec of tuples": Vec<Tail>, |n| src("", "a,a", n, "b"), |v| v.len(), |n| (2 * n, 1);
        C11 "vec of enums": Vec<En>, |n| src("", "abac", n, "b"), |v| v.len(), |n| (3 * n, 1);
        C03 "text any of": text::AnyOf<"ab">, |n| src("", "ab", n, "c"), |v| String::from(v).len(), |n| (2 * n, 1);
        C03 "text any of 1": text::AnyOf1<"ab">, |n| src("", "ab", n, "c"), |v| String::from(v).len(), |n| (2 * n, 1);
        C03 "text while not": text::WhileNot1<"c">, |n| src("", "ab", n, "c"), |v| String::from(v).len(), |n| (2 * n, 1);
        C03 "text while not, at the end": text::WhileNot1<"c">, |n| src("", "ab", n, ""), |v| String::from(v).len(), |n| (2 * n, 0);
        C03 "white space": Vec<text::WhiteSpace>, |n| src("", " \t", n, "c"), |v| v.len(), |n| (2 * n, 1);
        C03 "spaces": Vec<text::Space>, |n| src("", " ", n, "c"), |v| v.len(), |n| (n, 1);
        C03 "line endings": Vec<text::LineEnding>, |n| src("", "\r\n\n", n, "\r"), |v| v.len(), |n| (2 * n, 1);
        C03 "one of": Vec<text::OneOf<"ab">>, |n| src("", "ab", n, "c"), |v| v.len(), |n| (2 * n, 1);
        C04 "one of bytes": Vec<bytes::OneOf<b"ab">>, |n| bsrc("", "ab", n, "c"), |v| v.len(), |n| (2 * n, 1);
        C04 "bytes any of 1": bytes::AnyOf1<b"ab">, |n| bsrc("", "ab", n, "c"), |v| Vec::from(v).len(), |n| (2 * n, 1);
        C10 "ignored, between fields": Ign, |n| src("a", " ", n, "b"), |_| 0, |_| (0, 0);
        C10 "ignored, after a prefix": IgnFix, |n| src("<", " ", n, "pas>"), |_| 0, |_| (0, 0);
        C10 "ignored, after a field's prefix": IgnFix, |n| src("<p", " ", n, "as>"), |_| 0, |_| (0, 0);
        C10 "ignored, before a field's suffix": IgnFix, |n| src("<pa", " ", n, "s>"), |_| 0, |_| (0, 0);
        C10 "ignored, before a suffix": IgnFix, |n| src("<pas", " ", n, ">"), |_| 0, |_| (0, 0);
        C10 "two ignored": IgnTwo, |n| src("a", " _", n, "a"), |_| 0, |_| (0, 0);
        C10 "ignored, in a unit": IgnUnit, |n| src("<", " ", n, ""), |_| 0, |_| (0, 0);
        C10 "vec of structs with ignored": Vec<Ign>, |n| src("", "a  b", n, "b"), |v| v.len(), |n| (n, 1);
        C12 "list": Plain, |n| src("", "a", n, "b"), |v| v.0.len(), |n| (n, 1);
        C12 "list with separators": Sep, |n| src("", "a,", n, "a"), |v| v.l.len(), |n| (n + 1, 0);
        C12 "list with trailing separators": SepTrail, |n| src("", "a,", n, "b"), |v| v.l.len(), |n| (n, 1);
        C12 "list, maybe trailing": SepMaybe, |n| src("", "a,", n, "b"), |v| v.l.len(), |n| (n, 1);
        C12 "list with ignored": PlainIgn, |n| src("", "a ", n, "a"), |v| v.l.len(), |n| (n + 1, 0);
        C12 "list with separators and ignored": SepIgn, |n| src("", "a , ", n, "a"), |v| v.l.len(), |n| (n + 1, 0);
        C12 "list with trailing and ignored": TrailIgn, |n| src("", "a , ", n, ""), |v| v.l.len(), |n| (n, 0);
        C12 "list, maybe trailing, and ignored": MaybeIgn, |n| src("", "a , ", n, "a"), |v| v.l.len(), |n| (n + 1, 0);
        C12 "long ignored in a list": SepIgn, |n| src("a", " ", n, ", a"), |v| v.l.len(), |_| (2, 0);
        C12 "long ignored after a separator": SepIgn, |n| src("a,", " ", n, "a"), |v| v.l.len(), |_| (2, 0);
        C12 "long ignored in a plain list": PlainIgn, |n| src("a", " ", n, "a"), |v| v.l.len(), |_| (2, 0);
        C09 "parse_vec": FPlain, |n| src("", "a ", n, "a"), |v| v.0.len(), |n| (n + 1, 0);
        C09 "parse_vec_seperated_by": FSep, |n| src("", "a , ", n, "a"), |v| v.0.len(), |n| (n + 1, 0);
        C09 "parse_vec_seperated_by_trailing": FTrail, |n| src("", "a , ", n, "a,"), |v| v.0.len(), |n| (n + 1, 0);
        C09 "parse_vec_seperated_by_maybe_trailing": FMaybe, |n| src("", "a , ", n, "a,"), |v| v.0.len(), |n| (n + 1, 0);
    };
    // the entry points
    all.push(Case {
        prop: "C15",
        name: "parse",
        parse: |n| (nommy::parse::<Vec<A>, _>(src("", "a", n, "b")).expect(REJECTED).len(), 0),
        peek: |_| 0,
        want: |n| (n, 0),
    });
    all.push(Case {
        prop: "C15",
        name: "parse_terminated",
        parse: |n| (nommy::parse_terminated::<Vec<A>, _>(src("", "a", n, "")).expect(REJECTED).len(), 0),
        peek: |_| 0,
        want: |n| (n, 0),
    });
    all.push(Case {
        prop: "C15",
        name: "parse_terminated, rejected",
        parse: |n| (nommy::parse_terminated::<Vec<A>, _>(src("", "a", n, "b")).is_err() as usize, 0),
        peek: |_| 0,
        want: |_| (1, 0),
    });
    all
}

/// Runs one member of a family: what is wrong with it, for this property
fn one(c: &Case, n: usize, prop: &str) -> Result<(), String> {
    let (parse, peek, want) = (c.parse, c.peek, (c.want)(n));
    let run = std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| {
            let got = parse(n);
            (got, peek(n))
        });
        r.map_err(|e| {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        })
    });
    // (the stack running out ends the process)
    let r = run.join().unwrap();
    match prop {
        // every parse and peek returns
        "C13" => match r {
            // a rejection is none of its business
            Err(m) if !m.starts_with(REJECTED) && !m.starts_with(PEEK_REJECTED) => Err(format!("panics: {}", m)),
            _ => Ok(()),
        },
        // peek is parse without a value
        "C06" => match r {
            Ok((got, left)) if got.1 != left => Err(format!("parse leaves {} tokens, peek {}", got.1, left)),
            Err(m) if m.starts_with(PEEK_REJECTED) => Err("parse accepts, peek rejects".into()),
            _ => Ok(()),
        },
        _ => match r {
            Err(m) => Err(m),
            Ok((got, _)) if got != want => Err(format!("parse gives {:?} (repetitions, tokens left), not {:?}", got, want)),
            Ok(_) => Ok(()),
        },
    }
}

/// 1 2 3 4 5 7 8 9 15 16 17 ... up to and around the greatest power of 2
fn ladder(most: u32) -> Vec<usize> {
    let mut l: Vec<usize> = (0..=most).flat_map(|k| vec![(1 << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > 0).collect();
    l.sort_unstable();
    l.dedup();
    l
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cases = cases();
    if args[0] == "--replay" {
        let c = cases.iter().find(|c| c.name == args[1]).expect("no such case");
        match one(c, args[2].parse().unwrap(), &args[3]) {
            Ok(()) => println!("held"),
            Err(m) => {
                println!("{}, {} repetitions: {}", c.name, args[2], m);
                std::process::exit(1)
            }
        }
        return;
    }
    // long PROPERTY K PART PARTS: lines `at`, `done`, `bad` and `slow` are what check.py reads
    let most: u32 = args[1].parse().unwrap();
    let (part, parts): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let prop = &args[0][..];
    let mine = cases.iter().filter(|c| prop == "C13" || prop == "C06" || prop == c.prop);
    for (_, c) in mine.enumerate().filter(|(i, _)| i % parts == part) {
        for n in ladder(most) {
            println!("at\t{}\t{}", c.name, n);
            let start = std::time::Instant::now();
            if let Err(m) = one(c, n, prop) {
                println!("bad\t{}\t{}\t{}", c.name, n, m);
                break;
            }
            println!("done\t{}\t{}", c.name, n);
            // slow is not wrong: leave the rest of the ladder out
            if start.elapsed().as_secs() >= 3 {
                println!("slow\t{}\t{}", c.name, n);
                break;
            }
        }
    }
    println!("end");
}
