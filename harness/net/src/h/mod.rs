pub mod bk;
pub mod calls;
pub mod cli;
#[path = "/verif/harness/engine/src/h/m.rs"]

pub mod m;
pub mod mem;
#[path = "/repo/server/src/main.rs"]
pub mod server;
pub mod shell;
pub mod shell_main;
pub mod srv;
#[path = "/verif/harness/engine/src/h/u.rs"]
pub mod u;
pub const TABLES: &[&[(&str, extern "C" fn())]] = &[bk::TABLE, cli::TABLE, mem::TABLE, shell::TABLE, srv::TABLE];
