//! Check engine and reference model. Nothing in this crate depends on the code under test.
pub mod engine;
pub mod gen;
pub mod ops;
pub mod prog;
pub mod rt;
pub mod src;
pub mod tape;

pub use engine::{guarded, run_main, Case, Check, Ctx, Sub};
pub use ops::Op;
pub use rt::{Rt, Sh};
pub use src::Src;
pub use tape::Tape;
