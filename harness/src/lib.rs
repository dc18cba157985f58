//! rtmon: workloads and run-time monitors for rangetools.
//!
//! A *case* is one execution of the real crate under a monitor, made deterministically from
//! (seed, property, case number). The runner executes cases on all cores and watches them for
//! monitor verdicts, panics, crashes and runaway work.
pub mod dynv;
pub mod elem;
pub mod gen;
pub mod model;
pub mod rng;
pub mod runner;
