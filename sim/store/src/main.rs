mod format;
mod store;
mod types;
#[allow(dead_code)]
#[path = "../../core/src/val.rs"]
mod val;

use dsim::{Prop, Scenario};

const REAL: &[&str] = &["tp_serialize: Serializer, HandleMap, DeserializerBuilder, Deserializer and their tables", "tp_client: Baseline, contracts, states"];
const STUBS: &[&str] = &[
    "the flatbuffers crate: wire format, builder and verifier rewritten (the original isn't available offline)",
    "flatc: the schemas in /repo are compiled by the build script of the simulator",
    "the bimap crate: rewritten, with the order of iteration decided by the simulator",
    "the disk: the bytes of a save, of which any prefix may be left, or damaged",
];
static PROPS: &[Prop] = &[
    Prop {
        id: "C15",
        scenarios: &[Scenario { name: "generations", weight: 1, run: store::generations }],
        quick_runs: 250_000,
        thorough_runs: 10_000_000,
        rule: "One run: a realm of up to 8 contracts (every primitive type, object and contract handles, cycles, self references, no properties at all) lives through random histories; 1-4 times some or all of it is saved, in random order, the save possibly cut short, and all or some of it loaded; the realm then lives on from what was loaded. The loaded realm is compared with the saved one up to renaming. Non-trivial: a realm with objects was loaded; distinct: by hash of all events.",
        real: REAL,
        stubs: STUBS,
        assumptions: &[
            "a crash leaves a prefix of the bytes; other damage is C16",
            "zeros have no sign when stored (flatbuffers leaves out values equal to the default)",
            "objects that only their place in a cycle tells apart are compared by refinement over six rounds",
            "lists and channels can't be saved: the code says so with an error",
        ],
    },
    Prop {
        id: "C16",
        scenarios: &[Scenario { name: "damage", weight: 1, run: store::damage }],
        quick_runs: 250_000,
        thorough_runs: 10_000_000,
        rule: "One run: one or two saves of a realm, then 1-8 times the stored bytes are damaged (bits, bytes, words, sectors zeroed, repeated or lost, spliced with an older save, cut short, extended) or taken apart and put together with wrong indices, counts, types, names, versions or missing parts, and loaded by asking for the saved contracts or ones that differ in one thing. Non-trivial: something was refused; distinct: by hash of all events.",
        real: REAL,
        stubs: STUBS,
        assumptions: &["what the bytes describe is read by a reader of the simulator's own", "seeded search: damage is sampled, not enumerated"],
    },
];
fn main() {
    dsim::main(PROPS)
}
