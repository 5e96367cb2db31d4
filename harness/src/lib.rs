//! Shared runtime-monitoring harness for fundsp.
pub mod core;
#[cfg(feature = "cat")]
pub mod catalog;
#[cfg(feature = "cat")]
pub mod gen;
pub mod run;
pub mod probe;
pub mod tnode;
pub mod dunit;
pub mod netmodel;
pub mod seqmodel;
pub mod seqdrive;
pub use crate::core::*;
pub use crate::run::*;
/// Units that report through a shared variable.
pub mod watch;
