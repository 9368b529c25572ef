//! Program generator, erasure, coverage-object reader and execution oracle used by the harnesses.
//! Nothing here depends on the code under test.
pub mod canon;
pub mod check;
pub mod covdata;
pub mod exec;
pub mod expect;
pub mod gen;
pub mod gents;
pub mod parse;
