#![allow(dead_code)]
include!("/repo/client/codegen_wrapped/src/main.rs");

/// Where the code looks for its files.
pub const HOME: &str = "/repo/client/codegen_wrapped";
/// Runs the program: whether it reported success.
pub fn run() -> bool {
    let code = std::process::Termination::report(main());
    format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
}
