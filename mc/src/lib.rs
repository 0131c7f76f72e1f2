//! Explorer shared by all checks: index-addressable exhaustive spaces, run on all cores in a
//! supervised child process, so that a crash, an abort or a hang of the code under test is an
//! observation (with its case) and not an error of the check.
pub mod engine;
pub mod heap;
pub mod history;
pub mod refint;
pub mod refjson;
pub mod reflex;
pub mod refload;
pub mod refparse;
pub mod sized;
pub mod value;
pub mod vio;
