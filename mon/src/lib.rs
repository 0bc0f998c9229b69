//! Run-time monitors for lc3-ensemble: shared machinery.
pub mod files;
pub mod gen;
pub mod model;
pub mod mutate;
pub mod prog;
pub mod refasm;
pub mod refsim;
pub mod render;
pub mod rng;
pub mod roundtrip;
pub mod run;
pub mod simutil;
pub use rng::Rng;
pub use run::{guard, Check, Local, Tier};
