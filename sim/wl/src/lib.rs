//! Workload and reference models: what needs no instrumentation.
pub mod gen;
pub mod rng;
pub mod scan;
pub mod tables;
