//! Stateless model checker for nommy: explores the real parsers under every
//! behaviour of the token source (the environment), in lock step with a
//! reference model reading the same environment tape.
#![allow(incomplete_features)]
#![feature(const_generics)]
#![feature(thread_local)]

pub mod alloc;
pub mod crumb;
pub mod explore;
pub mod hist;
pub mod inter;
pub mod live;
pub mod obs;
pub mod prims;
pub mod run;
pub mod sent;
pub mod space;
pub mod spec;
pub mod tape;
pub mod val;

pub mod prelude {
    pub use crate::live::Tracked;
    pub use crate::obs::*;
    pub use crate::prims::*;
    pub use crate::run::*;
    pub use crate::space::walk;
    pub use crate::spec::*;
    pub use crate::tape::*;
    pub use crate::val::*;
    pub use nommy::{Buffer, IntoBuf, Parse};
    pub use std::rc::Rc;
}
