mod gen;
mod vfs;

use dsim::{Prop, Scenario};

static PROPS: &[Prop] = &[Prop {
    id: "C17",
    scenarios: &[Scenario { name: "session", weight: 1, run: gen::session }],
    quick_runs: 60_000,
    thorough_runs: 10_000_000,
    rule: "One run: 2-7 invocations of one of the two binding generators on one simulated disk, forced and not, from an absent, empty, used or obstructed output directory, while single or many file operations fail, are interrupted or come up short, the disk fills up, the process dies before any operation, the machine loses unsynced data, and templates and output are edited in between; the last invocation is forced and undisturbed. After each, the reported outcome and the disk are judged against what an undisturbed run makes of the same templates. Non-trivial: an invocation reported success; distinct: by hash of all events.",
    real: &[
        "both generators from their main function on: argument parsing (clap), Codegen, type tables, rendering (handlebars), error reporting (miette, eyre) and the standard library's file layer",
    ],
    stubs: &["the kernel's file system, behind the C library's file functions (simulated disk)"],
    assumptions: &[
        "errors that a kernel reports only when a file is closed are not injected: std::fs::File cannot see them",
        "losing power after reported success may lose data: the property doesn't promise durability",
        "generators run one at a time",
        "seeded search: fault sequences are sampled, not enumerated",
    ],
}];
fn main() {
    gen::load();
    dsim::main(PROPS)
}
