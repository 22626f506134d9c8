//! Runtime monitors for `funspace`: shared infrastructure.
pub mod ctx;
pub mod gen;
pub mod nd;
pub mod num;
pub use fsoracle as oracle;
pub mod probe;
pub mod spaces;
