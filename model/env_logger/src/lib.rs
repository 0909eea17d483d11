//! Nothing is logged.
pub fn init() {}
pub fn try_init() -> Result<(), ()> {
    Ok(())
}
