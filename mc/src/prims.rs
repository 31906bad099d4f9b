//! Token parsers of the harness. Combinators, lists and derived types are checked
//! over these, so that a fault in nommy's own token parsers does not raise an alarm there.
//! They read with `Buffer`/`Iterator` methods only, as a user's own parsers do.
use crate::live::Tracked;
use crate::tape::{Tok, TokT};
use crate::val::{ToVal, Val};
use nommy::{eyre, Buffer, Parse};
use std::convert::TryFrom;

/// A user's own token type.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tk(pub char);
impl TokT for Tk {
    fn from_tok(t: Tok) -> Self {
        Tk(std::char::from_u32(t).unwrap())
    }
    fn into_tok(self) -> Tok {
        self.0 as u32
    }
}

/// Another one: on the heap, neither copied nor compared.
#[derive(Clone)]
pub struct Tb(pub Box<u32>);
impl TokT for Tb {
    fn from_tok(t: Tok) -> Self {
        Tb(Box::new(t))
    }
    fn into_tok(self) -> Tok {
        *self.0
    }
}
impl HTok for Tb {
    fn is(&self, c: char) -> bool {
        *self.0 == c as u32
    }
}

/// Words, as a lexer hands them out: a reference.
pub type StrTok = &'static str;
impl TokT for &'static str {
    fn from_tok(t: Tok) -> Self {
        thread_local! { static WORDS: std::cell::RefCell<std::collections::HashMap<Tok, &'static str>> = Default::default(); }
        WORDS.with(|w| {
            *w.borrow_mut().entry(t).or_insert_with(|| {
                let c = std::char::from_u32(t).unwrap();
                // words of several lengths
                Box::leak(std::iter::once(c).chain("word".chars().take(t as usize % 5)).collect::<String>().into_boxed_str())
            })
        })
    }
    fn into_tok(self) -> Tok {
        self.chars().next().unwrap() as Tok
    }
}
impl HTok for &'static str {
    fn is(&self, c: char) -> bool {
        self.starts_with(c)
    }
}

/// Tokens with an owned text and the place they come from, which is no part of what is matched: bigger than a machine word.
pub type PairTok = (String, [u64; 5]);
impl TokT for (String, [u64; 5]) {
    fn from_tok(t: Tok) -> Self {
        (std::char::from_u32(t).unwrap().to_string(), [t.into(); 5])
    }
    fn into_tok(self) -> Tok {
        let c = self.0.chars().next().unwrap() as Tok;
        assert_eq!(self.1, [c as u64; 5]);
        c
    }
}
impl HTok for (String, [u64; 5]) {
    fn is(&self, c: char) -> bool {
        self.0.starts_with(c)
    }
}

/// A large one: kilobytes, with what it is at the far end.
#[derive(Clone)]
pub struct Th(pub [u32; 700]);
impl TokT for Th {
    fn from_tok(t: Tok) -> Self {
        Th([t; 700])
    }
    fn into_tok(self) -> Tok {
        assert!(self.0[0] == self.0[699] && self.0[350] == self.0[699]);
        self.0[699]
    }
}
impl HTok for Th {
    fn is(&self, c: char) -> bool {
        self.0[699] == c as u32
    }
}

/// One without a size: there is only `a`.
#[derive(Clone)]
pub struct Tz;
impl TokT for Tz {
    const JUNK: Tok = 'a' as u32;
    fn from_tok(t: Tok) -> Self {
        assert_eq!(t, 'a' as u32);
        Tz
    }
    fn into_tok(self) -> Tok {
        'a' as u32
    }
}
impl HTok for Tz {
    fn is(&self, c: char) -> bool {
        c == 'a'
    }
}

/// What the harness's parsers need of a token.
pub trait HTok: TokT {
    fn is(&self, c: char) -> bool;
}
impl HTok for char {
    fn is(&self, c: char) -> bool {
        *self == c
    }
}
impl HTok for u8 {
    fn is(&self, c: char) -> bool {
        *self as char == c
    }
}
impl HTok for Tk {
    fn is(&self, c: char) -> bool {
        self.0 == c
    }
}
impl HTok for Tracked {
    fn is(&self, c: char) -> bool {
        self.tok == c as u32
    }
}

fn no<T>() -> eyre::Result<T> {
    Err(eyre::eyre!("no match"))
}

macro_rules! for_tokens {
    ($($tok:ty),* => $m:ident) => { $($m!($tok);)* };
}

/// Exactly the token X.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct C<const X: char>;
impl<const X: char> ToVal for C<X> {
    fn to_val(self) -> Val {
        Val::T(X as u32)
    }
}
/// The token X, then the token Y; reads one token before it can fail on the second.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct D<const X: char, const Y: char>;
impl<const X: char, const Y: char> ToVal for D<X, Y> {
    fn to_val(self) -> Val {
        Val::S(vec![X as u32, Y as u32])
    }
}
/// One or more X.
#[derive(Clone, PartialEq, Debug)]
pub struct W<const X: char>(pub usize);
impl<const X: char> ToVal for W<X> {
    fn to_val(self) -> Val {
        Val::S(vec![X as u32; self.0])
    }
}
impl<const X: char> From<W<X>> for String {
    fn from(w: W<X>) -> String {
        std::iter::repeat(X).take(w.0).collect()
    }
}
/// Any number of X, also none.
#[derive(Clone, PartialEq, Debug)]
pub struct M<const X: char>(pub usize);
impl<const X: char> ToVal for M<X> {
    fn to_val(self) -> Val {
        Val::S(vec![X as u32; self.0])
    }
}
/// Matches without reading.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Empty;
impl ToVal for Empty {
    fn to_val(self) -> Val {
        Val::S(vec![])
    }
}
/// Never matches; reads one token.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Never;
impl ToVal for Never {
    fn to_val(self) -> Val {
        Val::U
    }
}
/// Matches at the end of input only.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct End;
impl ToVal for End {
    fn to_val(self) -> Val {
        Val::U
    }
}
/// Any one token.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Any(pub Tok);
impl ToVal for Any {
    fn to_val(self) -> Val {
        Val::T(self.0)
    }
}
impl From<Any> for Tok {
    fn from(a: Any) -> Tok {
        a.0
    }
}
impl ToVal for Tok {
    fn to_val(self) -> Val {
        Val::T(self)
    }
}
/// A run of digits 0 to 3 whose value is read in base 4; converts to `Small` if it is below 6.
#[derive(Clone, PartialEq, Debug)]
pub struct Digits(pub Vec<Tok>);
impl ToVal for Digits {
    fn to_val(self) -> Val {
        Val::S(self.0)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Small(pub u128);
impl ToVal for Small {
    fn to_val(self) -> Val {
        Val::N(self.0)
    }
}
#[derive(Debug)]
pub struct TooBig;
impl std::fmt::Display for TooBig {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "number too big")
    }
}
impl std::error::Error for TooBig {}
impl TryFrom<Digits> for Small {
    type Error = TooBig;
    fn try_from(d: Digits) -> Result<Small, TooBig> {
        small(&d.0).map(Small).ok_or(TooBig)
    }
}
pub fn small(d: &[Tok]) -> Option<u128> {
    let mut n = 0u128;
    for t in d {
        n = n.checked_mul(4)?.checked_add((*t - '0' as u32) as u128)?;
    }
    if n < 6 {
        Some(n)
    } else {
        None
    }
}
/// The token X, as a value whose ownership is tracked.
#[derive(Clone, PartialEq)]
pub struct TC<const X: char>(pub Tracked);
impl<const X: char> ToVal for TC<X> {
    fn to_val(self) -> Val {
        Val::T(self.0.tok)
    }
}
/// A tracked value created by the conversion of a field.
pub struct Conv(pub Tracked);
impl<const X: char> TryFrom<TC<X>> for Conv {
    type Error = TooBig;
    fn try_from(t: TC<X>) -> Result<Conv, TooBig> {
        if t.0.tok == 'z' as u32 {
            Err(TooBig)
        } else {
            Ok(Conv(Tracked::new(t.0.tok)))
        }
    }
}
impl ToVal for Conv {
    fn to_val(self) -> Val {
        Val::T(self.0.tok)
    }
}
/// First A, then B, as a user's own parser would do it.
#[derive(Clone, PartialEq, Debug)]
pub struct Seq<A, B>(pub A, pub B);
impl<T, A: Parse<T>, B: Parse<T>> Parse<T> for Seq<A, B> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        let a = A::parse(input)?;
        let b = B::parse(input)?;
        Ok(Seq(a, b))
    }
    fn peek(input: &mut impl Buffer<T>) -> bool {
        A::peek(input) && B::peek(input)
    }
}
impl<A: ToVal, B: ToVal> ToVal for Seq<A, B> {
    fn to_val(self) -> Val {
        Val::L(vec![self.0.to_val(), self.1.to_val()])
    }
}
/// A, or else B from the same place.
#[derive(Clone, PartialEq, Debug)]
pub enum Alt<A, B> {
    A(A),
    B(B),
}
impl<T, A: Parse<T>, B: Parse<T>> Parse<T> for Alt<A, B> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        {
            let mut cursor = input.cursor();
            if let Ok(a) = A::parse(&mut cursor) {
                let n = cursor.position();
                input.fast_forward(n);
                return Ok(Alt::A(a));
            }
        }
        B::parse(input).map(Alt::B)
    }
}
impl<A: ToVal, B: ToVal> ToVal for Alt<A, B> {
    fn to_val(self) -> Val {
        match self {
            Alt::A(a) => a.to_val(),
            Alt::B(b) => b.to_val(),
        }
    }
}

thread_local! {
    /// the maximum that `Li` passes to the list functions
    pub static MAX: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX);
}
/// The list functions as a type. MODE 0: parse_vec, 1: separated, 2: trailing, 3: maybe trailing.
pub struct Li<P, Q, S, I, const MODE: u8>(pub Vec<Q>, std::marker::PhantomData<(P, S, I)>);
impl<T, P, Q, S, I, const MODE: u8> Parse<T> for Li<P, Q, S, I, MODE>
where
    P: Parse<T> + std::convert::TryInto<Q>,
    <P as std::convert::TryInto<Q>>::Error: std::error::Error + Send + Sync + 'static,
    S: Parse<T>,
    I: Parse<T>,
{
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        use nommy::vec::*;
        let max = MAX.with(|m| m.get());
        let v = match MODE {
            0 => parse_vec::<P, Q, I, T, _>(max, input),
            1 => parse_vec_seperated_by::<P, Q, S, I, T, _>(max, input),
            2 => parse_vec_seperated_by_trailing::<P, Q, S, I, T, _>(max, input),
            _ => parse_vec_seperated_by_maybe_trailing::<P, Q, S, I, T, _>(max, input),
        }?;
        Ok(Li(v, std::marker::PhantomData))
    }
}
impl<P, Q: ToVal, S, I, const MODE: u8> ToVal for Li<P, Q, S, I, MODE> {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}

/// Creates a tracked value, then panics.
pub struct Boom(pub Tracked);
impl ToVal for Boom {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}
pub struct BoomPayload;

macro_rules! prims {
    ($tok:ty) => {
        impl<const X: char> Parse<$tok> for C<X> {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                match input.next() {
                    Some(t) if t.is(X) => Ok(C),
                    _ => no(),
                }
            }
        }
        impl<const X: char, const Y: char> Parse<$tok> for D<X, Y> {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                for c in [X, Y].iter() {
                    match input.next() {
                        Some(t) if t.is(*c) => (),
                        _ => return no(),
                    }
                }
                Ok(D)
            }
            fn peek(input: &mut impl Buffer<$tok>) -> bool {
                input.next().map_or(false, |t| t.is(X)) && input.next().map_or(false, |t| t.is(Y))
            }
        }
        impl<const X: char> Parse<$tok> for W<X> {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                let n = M::<X>::parse(input)?.0;
                if n == 0 {
                    no()
                } else {
                    Ok(W(n))
                }
            }
        }
        impl<const X: char> Parse<$tok> for M<X> {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                let mut n = 0;
                while input.peek_ahead(0).map_or(false, |t| t.is(X)) {
                    input.next();
                    n += 1;
                }
                Ok(M(n))
            }
        }
        impl Parse<$tok> for Empty {
            fn parse(_: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                Ok(Empty)
            }
        }
        impl Parse<$tok> for Never {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                input.next();
                no()
            }
        }
        impl Parse<$tok> for End {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                match input.next() {
                    None => Ok(End),
                    Some(_) => no(),
                }
            }
        }
        impl Parse<$tok> for Any {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                match input.next() {
                    None => no(),
                    Some(t) => Ok(Any(t.into_tok())),
                }
            }
        }
        impl Parse<$tok> for Digits {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                let mut v = vec![];
                while let Some(t) = input.peek_ahead(0) {
                    let t = t.into_tok();
                    if t < '0' as u32 || t > '3' as u32 {
                        break;
                    }
                    input.next();
                    v.push(t);
                }
                if v.is_empty() {
                    no()
                } else {
                    Ok(Digits(v))
                }
            }
        }
        impl<const X: char> Parse<$tok> for TC<X> {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                match input.next() {
                    Some(t) if t.is(X) => Ok(TC(Tracked::new(X as u32))),
                    _ => no(),
                }
            }
        }
        impl Parse<$tok> for Boom {
            fn parse(input: &mut impl Buffer<$tok>) -> eyre::Result<Self> {
                let b = Boom(Tracked::new('!' as u32));
                match input.next() {
                    Some(t) if t.is('!') => std::panic::panic_any(BoomPayload),
                    Some(t) if t.is('b') => Ok(b),
                    _ => no(),
                }
            }
        }
    };
}
for_tokens!(char, u8, Tk, Tb, StrTok, PairTok, Th, Tz, Tracked => prims);
