mod h;
pub use h::*;
