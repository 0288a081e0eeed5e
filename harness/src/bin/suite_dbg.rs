extern crate zkhash_dbg as z;
#[path = "../suite/mod.rs"]
mod suite;
pub const PROFILE: &str = "debug-assertions";
fn main() {
    suite::main(PROFILE)
}
