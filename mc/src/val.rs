//! A common form for parsed values, so that the reference model can predict them.
use crate::tape::Tok;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Val {
    U,
    T(Tok),
    S(Vec<Tok>),
    N(u128),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    R(String, Vec<Val>),
}

pub fn show_toks(v: &[Tok]) -> String {
    let mut s = String::new();
    s.push('"');
    for t in v {
        match std::char::from_u32(*t) {
            Some(c) => s.extend(c.escape_debug()),
            None => s.push_str(&format!("<{}>", t)),
        }
    }
    s.push('"');
    s
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::U => write!(f, "()"),
            Val::T(t) => write!(f, "{}", show_toks(&[*t]).replace('"', "'")),
            Val::S(s) => write!(f, "{}", show_toks(s)),
            Val::N(n) => write!(f, "{}", n),
            Val::L(l) => f.debug_list().entries(l).finish(),
            Val::O(None) => write!(f, "None"),
            Val::O(Some(v)) => write!(f, "Some({:?})", v),
            Val::R(n, l) => {
                write!(f, "{}{{", n)?;
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{:?}", v)?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub trait ToVal {
    fn to_val(self) -> Val;
}
impl ToVal for char {
    fn to_val(self) -> Val {
        Val::T(self as u32)
    }
}
impl ToVal for u8 {
    fn to_val(self) -> Val {
        Val::T(self.into())
    }
}
impl ToVal for usize {
    fn to_val(self) -> Val {
        Val::N(self as u128)
    }
}
impl ToVal for String {
    fn to_val(self) -> Val {
        Val::S(self.chars().map(|c| c as u32).collect())
    }
}
impl ToVal for () {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl<V: ToVal> ToVal for Vec<V> {
    fn to_val(self) -> Val {
        Val::L(self.into_iter().map(ToVal::to_val).collect())
    }
}
impl<V: ToVal> ToVal for nommy::Vec1<V> {
    fn to_val(mut self) -> Val {
        // all ways of getting at the content must agree
        let n = self.as_ref().len();
        assert_eq!(self.as_mut().len(), n);
        let v: Vec<V> = self.into();
        assert_eq!(v.len(), n);
        v.to_val()
    }
}
impl<V: ToVal> ToVal for Option<V> {
    fn to_val(self) -> Val {
        Val::O(self.map(|v| Box::new(v.to_val())))
    }
}
impl<V: ToVal> ToVal for Box<V> {
    fn to_val(self) -> Val {
        (*self).to_val()
    }
}
impl<V: ToVal, const N: usize> ToVal for [V; N] {
    fn to_val(self) -> Val {
        Val::L(std::array::IntoIter::new(self).map(ToVal::to_val).collect())
    }
}
impl<const X: &'static str> ToVal for nommy::text::Tag<X> {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl<const X: &'static [u8]> ToVal for nommy::bytes::Tag<X> {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl<const X: &'static str> ToVal for nommy::text::OneOf<X> {
    fn to_val(self) -> Val {
        char::from(self).to_val()
    }
}
impl<const X: &'static [u8]> ToVal for nommy::bytes::OneOf<X> {
    fn to_val(self) -> Val {
        u8::from(self).to_val()
    }
}
impl<const X: &'static str> ToVal for nommy::text::AnyOf<X> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl<const X: &'static str> ToVal for nommy::text::AnyOf1<X> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl<const X: &'static str> ToVal for nommy::text::WhileNot1<X> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl<const X: &'static [u8]> ToVal for nommy::bytes::AnyOf1<X> {
    fn to_val(self) -> Val {
        Val::S(Vec::<u8>::from(self).into_iter().map(u32::from).collect())
    }
}
impl ToVal for nommy::text::Space {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl ToVal for nommy::text::WhiteSpace {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl ToVal for nommy::text::LineEnding {
    fn to_val(self) -> Val {
        Val::U
    }
}
