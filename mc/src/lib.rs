//! Shared machinery of the checks: exact arithmetic, the reference model, operand alphabets and
//! the exhaustive runner. Independent of the crate under test.
pub mod big;
pub mod lattice;
pub mod model;
pub mod run;

pub use big::Big;
pub use model::{Exp, Mode, Out, MODES};
pub use run::{Check, Cx};
