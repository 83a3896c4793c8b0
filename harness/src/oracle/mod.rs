//! Reference semantics, independent of the code under test.
pub mod big;
pub mod eval;
pub mod series;
pub mod val;
