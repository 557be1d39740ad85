mod abi;
mod alloc;
#[path = "../../core/src/contracts.rs"]
#[allow(dead_code)]
mod contracts;
mod host;
#[path = "../../core/src/val.rs"]
#[allow(dead_code)]
mod val;
#[allow(dead_code)]
mod wide;
#[path = "../../core/src/world.rs"]
#[allow(dead_code)]
mod world;

use dsim::{Prop, Scenario};

const REAL: &[&str] = &[
    "tp_client exported C functions for all 14 value types and everything below them",
    "rsharp boxes, strings and lists; tp_contract_example and unity_states exports; safer-ffi",
];
const STUBS: &[&str] = &[
    "the foreign (C#) host: a Rust program that only calls exported symbols, with an application, a worker and a finalizer thread",
    "exports of a contract with every value type, which a contract crate writes for itself",
    "memory allocation inside the library (checking allocator)",
];
const ASSUME: &[&str] = &[
    "the host keeps to Rust's borrowing rules: no borrowed value is used once its realm was modified, and no realm from two threads at once",
    "the host doesn't pass stale handles, indexes out of range or invalid text, for which the exported functions panic by design",
    "contracts are unregistered with at most one object left, so that both twins reuse slots in the same order",
    "seeded search: histories and schedules are sampled, not enumerated",
];

static PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        scenarios: &[Scenario { name: "session", weight: 30, run: host::session }, Scenario { name: "bulk", weight: 1, run: host::bulk }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: a foreign host works on 1-2 realms for 10-120 steps through exported C functions only (every value type, both text encodings, native use in between, clean-up by a concurrent finalizer) while the same calls are made natively on twin realms; every value, identity, name, version, count and the final contents are compared. Non-trivial: a state was read through the interface; distinct: by hash of all events, switches and times.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C14",
        scenarios: &[Scenario { name: "session", weight: 24, run: host::session }, Scenario { name: "again", weight: 6, run: host::again }, Scenario { name: "bulk", weight: 1, run: host::bulk }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: as for C13, with releases in any order by the application, a worker and a delayed finalizer thread, all under a checking allocator that never reuses addresses (double, invalid and mismatched release, overrun, use after release by poisoning or unmapped pages); whatever is lent is read again right up to the modification of its owner; after everything was released, no memory may be left unreachable, and the same life again and again must not keep more and more. One run in thirty builds lists, texts and realms far longer than a test does. Non-trivial: a state was read through the interface; distinct: by hash of all events, switches and times.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
];
fn main() {
    dsim::main(PROPS)
}
extern crate tp_contract_example;
extern crate unity_states;
