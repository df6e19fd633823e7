//! Brings in the crate under test; `checks/decl.py` compiles generated declarations against it.
pub use laps;
