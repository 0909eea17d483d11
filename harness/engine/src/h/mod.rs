pub mod all;
pub mod api;
pub mod cmd;
pub mod codes;
pub mod conc;
pub mod long;
pub mod m;
pub mod misc;
pub mod req;
pub mod resp;
pub mod u;
pub const TABLES: &[&[(&str, extern "C" fn())]] = &[
    all::framing::TABLE,
    all::isolation::TABLE,
    all::more::TABLE,
    all::refusal::TABLE,
    api::TABLE,
    cmd::TABLE,
    codes::TABLE,
    conc::TABLE,
    long::TABLE,
    misc::TABLE,
    req::TABLE,
    resp::TABLE,
];
