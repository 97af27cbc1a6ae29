//! Property-based testing engine shared by every check.
//!
//! Generators draw from a `Src`, a choice sequence in the style of Hypothesis: every random
//! decision is one bounded integer on a tape, 0 being the simplest choice. A case is a pure
//! function of its tape, so shrinking is tape reduction and a replay file is the tape.
pub mod engine;
pub mod src;
pub use engine::*;
pub use src::*;
