//! tokio with a network, standard input and output and an executor that a
//! harness drives: `sync`, `stream` and the rest of `io` are those of tokio itself.
pub use real::{join, pin, select, stream, sync, try_join};
pub use tokio_macros_model::main;
pub mod model;
pub mod net;
pub mod runtime;
mod stdio;
pub mod task;
pub use task::spawn;
pub mod io {
    pub use crate::stdio::{stdin, stdout, Stdin, Stdout};
    pub use real::io::*;
}
