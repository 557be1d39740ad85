#![allow(dead_code)]
include!("/repo/crates/rsharp/codegen/src/main.rs");

pub const HOME: &str = env!("CARGO_MANIFEST_DIR");
/// Runs the program: whether it reported success.
pub fn run() -> bool {
    let code = std::process::Termination::report(main());
    format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
}
