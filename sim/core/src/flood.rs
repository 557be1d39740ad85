//! Extremes of size: backlogs of up to tens of thousands of undecided
//! collactions, queues with capacities far beyond a test's, and collactions of
//! tens of thousands of actions. Decides (with `engine`) C01, C02 and C03.
use crate::contracts::*;
use crate::val::*;
use crate::world::*;
use crossbeam_channel::{SendTimeoutError, TryRecvError, TrySendError};
use dsim::*;
use std::time::Duration;
use tp_client::action::property::{PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::states::DynStateHandle;
use tp_client::engine::ActionSender;
use tp_client::realm::{Realm, RealmID};
use tp_client::Engine;

const C2: &[&str] = &["C02"];
const C3: &[&str] = &["C03"];
const C23: &[&str] = &["C02", "C03"];

fn u(v: u64) -> Val {
    Val::One(One::U64(v))
}
fn write(h: DynStateHandle, v: u64) -> Action {
    Action::Property(PropertyAction::State(StateAction::Write { handle: h, data: u(v).to_prop() }))
}
fn expect(h: DynStateHandle, v: u64) -> Action {
    Action::Property(PropertyAction::State(StateAction::Assert { handle: h, data: u(v).to_prop() }))
}
/// The value of the `k`th action, which must be on a state.
fn value(c: &Collaction, k: usize) -> Option<u64> {
    let d = match c.actions().get(k)? {
        Action::Property(PropertyAction::State(StateAction::Write { data, .. })) => data,
        Action::Property(PropertyAction::State(StateAction::Assert { data, .. })) => data,
        _ => return None,
    };
    match Val::of_prop(d) {
        Val::One(One::U64(t)) => Some(t),
        _ => None,
    }
}
/// A realm with two counters in its working copy.
fn counters() -> (Realm, DynStateHandle, DynStateHandle) {
    let mut realm = Realm::new(RealmID::new("sim".into()));
    let b = realm.baseline_mut(BaselineKind::Fork);
    let c: Pair = b.register_contract().expect("register");
    let o = create(b, &c, &[u(0), u(0)], &[]).expect("create");
    let (hs, _) = bind_all(b, &c, o).expect("bind");
    (realm, hs[0], hs[1])
}
fn read(r: &Realm, h: DynStateHandle) -> u64 {
    match r.baseline(BaselineKind::Fork).state(h).map(|r| Val::of_ref(r.0)) {
        Ok(Val::One(One::U64(t))) => t,
        o => broken(&["C01", "C02"], "value-gone", &format!("a counter can't be read any more: {:?}", o.is_ok())),
    }
}

#[derive(Default)]
struct Tally {
    accepted: u64,
    gone: u64,
}
static TALLY: SimCell<Option<Tally>> = SimCell::new(None);
fn tally<R>(f: impl FnOnce(&mut Tally) -> R) -> R {
    TALLY.with(|t| f(t.as_mut().expect("tally")))
}

const WHO: u64 = 1 << 40;
/// Sends `n` collactions, of which every seventh must be rejected.
/// All are accepted: there is room for everyone's.
fn sender(who: u64, tx: ActionSender, a: DynStateHandle, b: DynStateHandle, n: u64, mode: usize) {
    for k in 0..n {
        let tag = who * WHO + k + 1;
        let mut acts = vec![write(a, tag)];
        if k % 7 == 6 {
            acts.push(expect(b, 1));
        }
        let c = Collaction::new(acts);
        let blocked0 = blocked_ns();
        let bad = match mode {
            0 => match tx.try_send(c) {
                Ok(()) => None,
                Err(TrySendError::Full(_)) => Some("refused: full"),
                Err(TrySendError::Disconnected(_)) => Some("refused: hung up"),
            },
            1 => match tx.send_timeout(c, Duration::from_millis(5)) {
                Ok(()) => None,
                Err(SendTimeoutError::Timeout(_)) => Some("timed out"),
                Err(SendTimeoutError::Disconnected(_)) => Some("refused: hung up"),
            },
            _ => tx.send(c).err().map(|_| "refused: hung up"),
        };
        let (sure, gone) = tally(|t| (t.accepted, t.gone));
        if let Some(b) = bad {
            broken(C3, "refused-with-room", &format!("send {k} of client {who} was {b} although there was room ({sure} accepted, {gone} taken)"));
        }
        ensure_for!(C3, blocked_ns() == blocked0, "blocked-with-room", "send {k} of client {who} was blocked although there was room ({sure} accepted, {gone} taken)");
        tally(|t| t.accepted += 1);
    }
    ev!("client {who} has sent {n}");
}

pub fn backlog() {
    let (realm, a, b) = counters();
    TALLY.with(|t| *t = Some(Tally::default()));
    // ---- how many ----
    let size = |k: usize| match k {
        0 => range(30, 70),
        1 => range(120, 300),
        2 => range(500, 1100),
        3 => range(4000, 4200),
        4 => 8190 + choose(5),
        5 => 65530 + choose(20),
        _ => 70_000,
    };
    let cap = if chance(1, 2) { None } else { Some(size(weighted(&[8, 8, 4, 2, 1, 1]))) };
    let many = cap.unwrap_or_else(|| size(weighted(&[8, 8, 4, 2, 1, 0, 1]))) as u64;
    let conf = Config { policy: [0, 1, 2][choose(3)], switch_pct: [10, 40, 2][choose(3)], step_ns: 1000, pct_log: 6, max_atomics: 80_000_000, ..Config::default() };
    let n = range(1, 3) as u64;
    // Collactions of an earlier, decided batch make the queue's positions differ.
    let before = if chance(1, 2) { range(1, 40) as u64 } else { 0 };
    summary(&format!("capacity {cap:?}, {n} clients send {many} before the engine takes any, after {before} others"));
    ev!("capacity {cap:?}, {many} collactions, {n} clients, {before} before");
    let (mut eng, tx) = Engine::new(realm, cap);
    for k in 0..before {
        if tx.try_send(Collaction::new(vec![write(a, k + 1)])).is_err() {
            broken(C3, "refused-with-room", "a send into an empty queue was refused");
        }
        match eng.try_apply() {
            Ok(Ok(_)) => {}
            _ => broken(C23, "missed", "a collaction that was sent was not applied"),
        }
    }
    set_config(&conf);
    let mut kids = Vec::new();
    for w in 0..n {
        let share = many / n + (w < many % n) as u64;
        let (tx, mode) = (tx.clone(), choose(3));
        kids.push(std::thread::spawn(move || sender(w, tx, a, b, share, mode)));
    }
    for k in kids {
        if k.join().is_err() {
            broken(C23, "send-panics", "sending panicked");
        }
    }
    ev!("all sent");
    probe(if many > 60_000 {
        "backlog of more than 60000"
    } else if many > 4000 {
        "backlog of more than 4000"
    } else if many > 256 {
        "backlog of more than 256"
    } else {
        "backlog of up to 256"
    });
    // ---- at capacity: every further send is refused, whichever way ----
    let over = |eng_taken: u64| {
        if cap.is_none() {
            return;
        }
        let c = Collaction::new(vec![write(a, 1)]);
        match tx.try_send(c) {
            Err(TrySendError::Full(_)) => probe("full at a large capacity"),
            Ok(()) => broken(C3, "over-capacity", &format!("{} collactions are pending in a queue of capacity {many} ({eng_taken} taken)", many + 1)),
            Err(_) => broken(C3, "hang-up-while-alive", "a send reported a hang-up while the engine lives"),
        }
        let c = Collaction::new(vec![write(a, 1)]);
        match tx.send_timeout(c, Duration::from_millis(3)) {
            Err(SendTimeoutError::Timeout(_)) => {}
            Ok(()) => broken(C3, "over-capacity", &format!("{} collactions are pending in a queue of capacity {many} ({eng_taken} taken)", many + 1)),
            Err(_) => broken(C3, "hang-up-while-alive", "a send reported a hang-up while the engine lives"),
        }
    };
    over(0);
    // ---- the engine takes them ----
    let stop = if chance(1, 4) { choose(many as usize + 1) as u64 } else { many };
    let refill = if chance(1, 2) { choose(stop.max(1) as usize) as u64 } else { u64::MAX };
    let mut next = vec![0u64; n as usize];
    let mut extra = 0u64;
    let mut last = read(eng.realm(), a);
    let timed = chance(1, 4);
    for k in 0..stop {
        let got = if timed { eng.apply_timeout(Duration::from_millis(1)).map_err(|_| TryRecvError::Empty) } else { eng.try_apply() };
        let r = match got {
            Ok(r) => r,
            Err(_) => broken(C2, "missed", &format!("reported that nothing is pending after {k} of {many} sent collactions")),
        };
        let (c, ok) = match r {
            Ok(c) => (c, true),
            Err(c) => (c, false),
        };
        let now = read(eng.realm(), a);
        let tag = if ok { now } else { value(&c, 0).unwrap_or(0) };
        let (w, ix) = ((tag / WHO) as usize, (tag % WHO).wrapping_sub(1));
        ensure_for!(C2, w < n as usize && tag % WHO != 0, "invented", "decision {k} is of tag {tag}, which nobody sent");
        ensure_for!(C2, ix == next[w], "out-of-order", "decision {k} is of collaction {ix} of client {w}, whose next one is {}", next[w]);
        next[w] += 1;
        if ok {
            ensure_for!(C2, ix % 7 != 6, "accepted-wrongly", "collaction {ix} of client {w} was applied although its assertion fails");
            ensure_for!(C2, value(&c, 0) == Some(last), "handed-back-changed", "collaction {ix} of client {w} came back with {:?} instead of the replaced {last}", value(&c, 0));
        } else {
            ensure_for!(C2, ix % 7 == 6, "rejected-wrongly", "collaction {ix} of client {w} was rejected although it applies");
            ensure_for!(C2, now == last, "half-applied", "rejected collaction {ix} of client {w} left {now} instead of {last}");
        }
        last = now;
        tally(|t| t.gone += 1);
        // Room for exactly as many as were taken.
        if k == refill && cap.is_some() {
            for _ in 0..=k {
                if tx.try_send(Collaction::new(vec![write(b, 0)])).is_err() {
                    broken(C3, "refused-with-room", &format!("a send was refused with {} of {many} pending", many - k - 1 + extra));
                }
                extra += 1;
            }
            over(k + 1);
            probe("refilled exactly");
        }
    }
    ev!("{stop} taken");
    if stop == many {
        ensure_for!(C2, next.iter().sum::<u64>() == many, "lost", "only {} of {many} collactions were decided", next.iter().sum::<u64>());
        for k in 0..extra {
            ensure_for!(C2, matches!(eng.try_apply(), Ok(Ok(_))), "lost", "collaction {k} of {extra} sent later was not applied");
        }
        ensure_for!(C2, matches!(eng.try_apply(), Err(TryRecvError::Empty)), "invented", "a collaction was decided after the last one");
        nontrivial();
    } else {
        // The engine leaves with a backlog.
        drop(eng);
        match tx.send(Collaction::new(vec![write(a, 77), expect(b, 3)])) {
            Err(e) => ensure_for!(C3, value(&e.0, 0) == Some(77) && value(&e.0, 1) == Some(3), "returned-changed", "a refused collaction came back changed"),
            Ok(()) => broken(C3, "send-after-hang-up", "sending to an engine that is gone succeeded"),
        }
        probe("engine left with a large backlog");
        nontrivial();
    }
}

/// Collactions of up to tens of thousands of actions, atomic all the same.
pub fn giants() {
    const C1: &[&str] = &["C01"];
    let (realm, a, b) = counters();
    let (mut eng, tx) = Engine::new(realm, None);
    let mut state = [0u64, 0u64];
    let hs = [a, b];
    let rounds = range(1, 4);
    summary(&format!("{rounds} giant collactions"));
    for r in 0..rounds {
        let n = match weighted(&[6, 6, 3, 1]) {
            0 => range(60, 140),
            1 => range(200, 1100),
            2 => range(4000, 4200),
            _ => range(65_500, 66_000),
        };
        // Where it fails, if it does: anywhere, and often at the very end.
        let fail = match choose(4) {
            0 => None,
            1 => Some(n - 1),
            _ => Some(choose(n)),
        };
        ev!("round {r}: {n} actions, fails at {fail:?}");
        let (mut m, mut acts, mut want) = (state, Vec::with_capacity(n), Vec::with_capacity(n));
        // Decided by one number, so that a run needs few recorded decisions.
        let mut x = bits64();
        let mut roll = move || {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let y = x ^ (x >> 29);
            y.wrapping_mul(0xbf58476d1ce4e5b9) >> 7
        };
        for k in 0..n {
            let s = (roll() % 2) as usize;
            let (act, back) = if fail == Some(k) {
                (expect(hs[s], m[s].wrapping_add(1)), m[s].wrapping_add(1))
            } else if roll() % 3 == 0 {
                (expect(hs[s], m[s]), m[s])
            } else {
                let v = roll();
                let old = std::mem::replace(&mut m[s], v);
                // An applied write holds what it replaced, a rejected one what was sent.
                (write(hs[s], v), if fail.is_none() { old } else { v })
            };
            acts.push(act);
            want.push(back);
        }
        if tx.try_send(Collaction::new(acts)).is_err() {
            broken(C1, "send-refused", "a collaction was refused by an unbounded queue");
        }
        let (c, ok) = match catching(|| eng.try_apply()) {
            Ok(Ok(Ok(c))) => (c, true),
            Ok(Ok(Err(c))) => (c, false),
            Ok(Err(_)) => broken(&["C01", "C02"], "missed", "a collaction that was sent was neither applied nor rejected"),
            Err(m) => broken(C1, "engine-panics", &format!("the engine panicked: {m}")),
        };
        if ok {
            ensure_for!(C1, fail.is_none(), "accepted-wrongly", "a collaction of {n} actions was applied although action {fail:?} fails");
            state = m;
        } else {
            ensure_for!(C1, fail.is_some(), "rejected-wrongly", "a collaction of {n} actions was rejected although it applies");
        }
        for s in 0..2 {
            let got = read(eng.realm(), hs[s]);
            ensure_for!(C1, got == state[s], "half-applied", "after a collaction of {n} actions (fails at {fail:?}) a state is {got} instead of {}", state[s]);
        }
        ensure_for!(C1, c.actions().len() == n, "handed-back-changed", "a collaction of {n} actions came back with {}", c.actions().len());
        for k in 0..n {
            ensure_for!(C1, value(&c, k) == Some(want[k]), "handed-back-changed", "action {k} of {n} came back with {:?} instead of {}", value(&c, k), want[k]);
        }
        probe(if n > 60_000 { "more than 60000 actions" } else if n > 255 { "more than 255 actions" } else { "up to 255 actions" });
    }
    nontrivial();
}
