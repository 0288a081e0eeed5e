extern crate zkhash as z;
#[path = "../suite/mod.rs"]
mod suite;
pub const PROFILE: &str = "release";
fn main() {
    suite::main(PROFILE)
}
