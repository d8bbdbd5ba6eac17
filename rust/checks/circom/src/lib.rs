pub mod field;
pub mod interp;
pub mod keccak;
pub mod r1cs;
pub mod solve;
pub mod syntax;
pub use field::F;
pub use interp::{Con, Opt, Program, Run};
pub use keccak::keccak256;
