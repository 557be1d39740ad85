mod clock;
mod contracts;
mod engine;
mod flood;
mod mass;
mod slots;
mod realm;
mod val;
mod world;

use dsim::{Prop, Scenario};

const ENGINE_REAL: &[&str] = &[
    "tp_client Engine, Realm, Baseline, contracts, states, actions",
    "crossbeam-channel queue, std threads, parking and clocks (real code; blocking calls decided by the scheduler)",
];
const STUBS: &[&str] = &[
    "operating system: futexes, clocks, sleeps, randomness and thread scheduling are simulated",
];
const ASSUME: &[&str] = &[
    "memory is sequentially consistent: threads switch at system calls and at atomic operations, and weak-memory reorderings are not produced",
    "seeded search: schedules and faults are sampled, not enumerated",
];

const REALM_REAL: &[&str] = &["tp_client Realm, Engine (C07 and C08), Baseline, Object, contracts, states, channels, contract macros", "arena and its generational arena, better_borrow, typemap"];
const REALM_STUBS: &[&str] = &["network between clients and server (requests with delay, reordering, duplication, loss)", "contracts other than Named implement IStates and IChannels by hand, since #[states] doesn't take lists"];
const ASSUME_REALM: &[&str] = &["handles are only used on the copy of the realm that issued them", "keyframe times are not NaN", "seeded search: histories are sampled, not enumerated"];

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        scenarios: &[Scenario { name: "atomic", weight: 30, run: engine::atomic }, Scenario { name: "giants", weight: 1, run: flood::giants }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-4 producer threads send up to 8 collactions each (writes, assertions, stale handles, wrong types, duplicates, empty ones; every value type) through the queue to an engine thread that polls, waits, ticks, creates, removes, writes and retries; every decision is compared with a reference model. Non-trivial: at least one collaction was decided; distinct: by hash of all events, switches and times.",
        real: ENGINE_REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C02",
        scenarios: &[Scenario { name: "order", weight: 60, run: engine::order }, Scenario { name: "capacity", weight: 20, run: engine::capacity }, Scenario { name: "backlog", weight: 1, run: flood::backlog }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-4 producer threads (blocking, non-blocking and timed sends, clones, crashes mid-plan, early exits) and an engine host that polls and waits, over queues of every kind; each decided collaction is matched with its send by a unique tag, and the finished history is checked for exactly-once, conservation and the real-time order of sends. Non-trivial: at least one collaction was decided; distinct: by hash of all events, switches and times.",
        real: ENGINE_REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C03",
        scenarios: &[Scenario { name: "capacity", weight: 60, run: engine::capacity }, Scenario { name: "backlog", weight: 1, run: flood::backlog }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: as for C02 but with capacities 0-7 preferred and engines that leave early; pending counts are bounded at every completed send, refusals are justified against an upper bound of what was pending during the call, timed sends are timed on the simulated clock, returned collactions are compared, and a sender that nobody can ever wake is a deadlock of the simulation. Non-trivial: at least one collaction was decided; distinct: by hash of all events, switches and times.",
        real: ENGINE_REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C04",
        scenarios: &[Scenario { name: "waiting", weight: 1, run: engine::waiting }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: as for C02 with waits of 0 ns to for ever; every return of a poll or wait is judged on the simulated clock and against what had surely been sent and which senders surely lived, under spurious wake-ups, interrupted system calls, stalls and clock jumps. Non-trivial: at least one collaction was decided; distinct: by hash of all events, switches and times.",
        real: ENGINE_REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C05",
        scenarios: &[Scenario { name: "time", weight: 1, run: engine::time }, Scenario { name: "frames", weight: 1, run: clock::frames }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: an engine host mixes ticks of every size (limits, negative, random) with queue traffic, waits, clock jumps and stalls; realm time and its conversions are compared with a 64-bit model after every call. Non-trivial: at least one collaction was decided; distinct: by hash of all events, switches and times.",
        real: ENGINE_REAL,
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C06",
        scenarios: &[Scenario { name: "frames", weight: 1, run: clock::frames }],
        quick_runs: 120_000,
        thorough_runs: 10_000_000,
        rule: "One run: an application's frame loop measures a simulated, stalling and jumping clock and ticks an engine, while a director thread changes warps and parents of up to 6 objects; each frame every object's local time (through chains of warps) is compared with exact arithmetic clamped at each step, and with what it was before. Non-trivial: at least one frame read a warped object; distinct: by hash of all events, switches and times.",
        real: &["tp_client Engine, Realm, Baseline, Ticks, TimeWarp, TimeScale, ChannelTime", "std threads, Instant, sleep and mpsc (real code on simulated system calls)"],
        stubs: STUBS,
        assumptions: ASSUME,
    },
    Prop {
        id: "C07",
        scenarios: &[Scenario { name: "stale", weight: 90, run: realm::stale }, Scenario { name: "atomic", weight: 10, run: engine::atomic }, Scenario { name: "arenas", weight: 4, run: slots::arenas }, Scenario { name: "crowd", weight: 1, run: mass::crowd }, Scenario { name: "lives", weight: 2, run: mass::lives }, Scenario { name: "wide", weight: 1, run: mass::wide }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for creation, removal, reads and writes over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Some runs instead send collactions to an engine from producer threads, as for C01. Non-trivial: a stale handle was used, or an object was created after others were removed; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
    Prop {
        id: "C08",
        scenarios: &[Scenario { name: "writes", weight: 90, run: realm::writes }, Scenario { name: "atomic", weight: 15, run: engine::atomic }, Scenario { name: "crowd", weight: 1, run: mass::crowd }, Scenario { name: "wide", weight: 1, run: mass::wide }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for writes, channel edits and time warps through every access path over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Some runs instead send collactions to an engine from producer threads, as for C01. Non-trivial: a property of a live object was written; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
    Prop {
        id: "C09",
        scenarios: &[Scenario { name: "objects", weight: 90, run: realm::objects }, Scenario { name: "crowd", weight: 1, run: mass::crowd }, Scenario { name: "lives", weight: 1, run: mass::lives }, Scenario { name: "wide", weight: 1, run: mass::wide }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for creation (also with wrong properties or stale contracts) and removal (also of stale objects or through other contracts) over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Non-trivial: an object was removed or a creation refused; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
    Prop {
        id: "C10",
        scenarios: &[Scenario { name: "registrations", weight: 90, run: realm::registrations }, Scenario { name: "crowd", weight: 1, run: mass::crowd }, Scenario { name: "lives", weight: 1, run: mass::lives }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for registration and unregistering (also repeated, stale or through other contracts) mixed with creation and removal over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Non-trivial: a contract with objects was unregistered, or a registration refused; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
    Prop {
        id: "C11",
        scenarios: &[Scenario { name: "naming", weight: 90, run: realm::naming }, Scenario { name: "wide", weight: 1, run: mass::wide }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for identifiers by name, position, iteration and random skips, bound to objects of the same and of other registrations over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Non-trivial: all ways of naming the properties of a contract were compared; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
    Prop {
        id: "C12",
        scenarios: &[Scenario { name: "keyframes", weight: 90, run: realm::keyframes }, Scenario { name: "reels", weight: 1, run: mass::reels }, Scenario { name: "wide", weight: 1, run: mass::wide }],
        quick_runs: 60_000,
        thorough_runs: 10_000_000,
        rule: "One run: 1-3 clients ask a server for channels whose keyframes arrive one by one in any order and with duplicates, and edits of them over a simulated network that delays, reorders, duplicates and drops requests (so that they act on handles, identifiers and contracts that have gone stale), against both copies of a realm with every kind of contract and value type; after each operation its outcome and the whole realm are compared with a reference model. Non-trivial: a channel was built from out-of-order keyframes or edited; distinct: by hash of all events and times.",
        real: REALM_REAL,
        stubs: REALM_STUBS,
        assumptions: ASSUME_REALM,
    },
];
fn main() {
    dsim::main(PROPS)
}
