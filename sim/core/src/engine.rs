//! The engine and its queue: producer threads, the engine's host thread, and
//! oracles over the recorded history. Decides C01 to C05.
use crate::contracts::*;
use crate::val::*;
use crate::world::*;
use crossbeam_channel::{RecvTimeoutError, SendTimeoutError, TryRecvError, TrySendError};
use dsim::*;
use std::mem::ManuallyDrop;
use std::time::Duration;
use tp_client::action::property::{ChannelAction, PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::DynChannelHandle;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::DynStateHandle;
use tp_client::engine::ActionSender;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;
use tp_client::Engine;

// ---- collactions, as the model sees them ----

#[derive(Clone, Debug)]
enum Act {
    Assert(DynStateHandle, usize, Val),
    Write(DynStateHandle, usize, Val),
    ChanAssert(DynChannelHandle, Val),
    ChanWrite(DynChannelHandle, Val),
}
#[derive(Clone, Debug)]
struct Spec {
    tag: Option<u64>,
    acts: Vec<Act>,
}
fn build(s: &Spec) -> Collaction {
    Collaction::new(
        s.acts
            .iter()
            .map(|a| {
                Action::Property(match a {
                    Act::Assert(h, _, v) => PropertyAction::State(StateAction::Assert { handle: *h, data: v.to_prop() }),
                    Act::Write(h, _, v) => PropertyAction::State(StateAction::Write { handle: *h, data: v.to_prop() }),
                    Act::ChanAssert(h, v) => PropertyAction::Channel(ChannelAction::Assert { handle: *h, data: v.to_prop() }),
                    Act::ChanWrite(h, v) => PropertyAction::Channel(ChannelAction::Write { handle: *h, data: v.to_prop() }),
                })
            })
            .collect(),
    )
}
/// What differs between a collaction and its description, if anything.
/// An applied collaction holds the replaced values, so those aren't compared.
fn differs(c: &Collaction, s: &Spec, values: bool) -> Option<String> {
    let got = c.actions();
    if got.len() != s.acts.len() {
        return Some(format!("has {} actions instead of {}", got.len(), s.acts.len()));
    }
    for (i, (g, w)) in got.iter().zip(&s.acts).enumerate() {
        let Action::Property(g) = g;
        let ok = |d: &DynTpProperty, v: &Val, check: bool| !check || Val::of_prop(d).same(v);
        let good = match (g, w) {
            (PropertyAction::State(StateAction::Assert { handle, data }), Act::Assert(h, _, v)) => {
                handle == h && ok(data, v, true)
            }
            (PropertyAction::State(StateAction::Write { handle, data }), Act::Write(h, _, v)) => {
                handle == h && ok(data, v, values)
            }
            (PropertyAction::Channel(ChannelAction::Assert { handle, data }), Act::ChanAssert(h, v)) => {
                handle == h && ok(data, v, true)
            }
            (PropertyAction::Channel(ChannelAction::Write { handle, data }), Act::ChanWrite(h, v)) => {
                handle == h && ok(data, v, true)
            }
            _ => false,
        };
        if !good {
            return Some(format!("action {i} differs from {w:?}"));
        }
    }
    None
}
/// The tag a collaction carries, looking at places an engine leaves alone.
fn tag_of(c: &Collaction) -> Option<u64> {
    for a in c.actions() {
        let Action::Property(a) = a;
        if let PropertyAction::Channel(ChannelAction::Write { data, .. }) = a {
            if let Val::One(One::U64(t)) = Val::of_prop(data) {
                return Some(t);
            }
        }
    }
    None
}
fn first_write(c: &Collaction) -> Option<u64> {
    match c.actions().first() {
        Some(Action::Property(PropertyAction::State(StateAction::Write { data, .. }))) => match Val::of_prop(data) {
            Val::One(One::U64(t)) => Some(t),
            _ => None,
        },
        _ => None,
    }
}

// ---- the history ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Block,
    Try,
    Timed(Duration),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sent {
    Ok,
    Full,
    TimedOut,
    HungUp,
}
struct Inst {
    tag: Option<u64>,
    begin: u64,
    begin_t: u64,
    end: Option<(u64, u64, Sent)>,
    decided: Option<u64>,
}
#[derive(Default)]
struct Hist {
    seq: u64,
    insts: Vec<Inst>,
    /// undecided, successfully sent untagged ones are matched in order
    decided: u64,
    in_apply: bool,
    applies_begun: u64,
    live_senders: i64,
    drops_done: u64,
    senders_made: u64,
    engine_drop_begun: Option<u64>,
    engine_dropped: Option<u64>,
    /// When the latest timed call is to give up.
    deadline: u64,
}
static HIST: SimCell<Option<Hist>> = SimCell::new(None);
fn hist<R>(f: impl FnOnce(&mut Hist) -> R) -> R {
    HIST.with(|h| f(h.as_mut().expect("history")))
}
impl Hist {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    /// Sends that may have put something into the queue by now.
    fn maybe_sent(&self) -> u64 {
        self.insts.iter().filter(|i| i.end.map_or(true, |e| e.2 == Sent::Ok)).count() as u64
    }
    /// Sends that ended well and surely aren't decided yet.
    fn waiting(&self) -> u64 {
        self.waiting_since(u64::MAX)
    }
    /// Of these, the ones that had ended before some moment. Which of several
    /// untagged ones were decided can't be told, so these are only counted.
    fn waiting_since(&self, moment: u64) -> u64 {
        let mut by: std::collections::BTreeMap<Option<u64>, (u64, u64)> = Default::default();
        for i in &self.insts {
            let e = by.entry(i.tag).or_default();
            e.0 += i.end.map_or(false, |e| e.2 == Sent::Ok && e.1 < moment) as u64;
            e.1 += i.decided.is_some() as u64;
        }
        by.values().map(|(s, d)| s.saturating_sub(*d)).sum()
    }
    fn surely_sent(&self) -> u64 {
        self.insts.iter().filter(|i| i.end.map_or(false, |e| e.2 == Sent::Ok)).count() as u64
    }
}

// ---- configuration of a run ----

#[derive(Clone, Debug)]
struct Setup {
    cap: Option<usize>,
    strict: bool,
    fine: bool,
    /// How late a timed wait may end.
    slack_ns: u64,
}
/// How long a call that must not wait may be suspended.
const BLOCKED_SLACK_NS: u64 = 200_000;
static SETUP: SimCell<Option<Setup>> = SimCell::new(None);
fn setup() -> Setup {
    SETUP.with(|s| s.clone().expect("setup"))
}

/// A sender whose end of life is on record.
struct Tx(ManuallyDrop<ActionSender>);
impl Tx {
    fn new(s: ActionSender) -> Self {
        hist(|h| {
            h.live_senders += 1;
            h.senders_made += 1;
        });
        Tx(ManuallyDrop::new(s))
    }
    fn another(&self) -> Self {
        // counted before it exists, so that the count is never too low
        hist(|h| {
            h.live_senders += 1;
            h.senders_made += 1;
        });
        Tx(ManuallyDrop::new((*self.0).clone()))
    }
}
impl Drop for Tx {
    fn drop(&mut self) {
        hist(|h| h.live_senders -= 1);
        unsafe { ManuallyDrop::drop(&mut self.0) };
        hist(|h| h.drops_done += 1);
    }
}

const C2: &[&str] = &["C02"];
const C3: &[&str] = &["C03"];

/// Sends one collaction and judges the outcome of the call itself.
/// Gives the collaction back if it wasn't accepted.
fn send(who: &str, tx: &Tx, c: Collaction, spec: &Spec, mode: Mode) -> Result<(), (Collaction, Sent)> {
    let s = setup();
    let (ix, _b, decided_b, begun_b, drop_done_b) = hist(|h| {
        let b = h.tick();
        let maybe = h.maybe_sent();
        h.insts.push(Inst { tag: spec.tag, begin: b, begin_t: now(), end: None, decided: None });
        (h.insts.len() - 1, b, h.decided, maybe, h.engine_dropped.is_some())
    });
    let t0 = now();
    if let Mode::Timed(d) = mode {
        hist(|h| h.deadline = t0.saturating_add(d.as_nanos() as u64));
    }
    ev!("{who} sends {:?} ({mode:?})", spec.tag);
    let blocked0 = blocked_ns();
    let r = catching(|| match mode {
        Mode::Block => tx.0.send(c).map_err(|e| (e.0, Sent::HungUp)),
        Mode::Try => tx.0.try_send(c).map_err(|e| match e {
            TrySendError::Full(c) => (c, Sent::Full),
            TrySendError::Disconnected(c) => (c, Sent::HungUp),
        }),
        Mode::Timed(d) => tx.0.send_timeout(c, d).map_err(|e| match e {
            SendTimeoutError::Timeout(c) => (c, Sent::TimedOut),
            SendTimeoutError::Disconnected(c) => (c, Sent::HungUp),
        }),
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => broken(&["C02", "C03"], "send-panics", &format!("sending panicked: {m}")),
    };
    let waited = now() - t0;
    let blocked = blocked_ns() - blocked0;
    let out = match &r {
        Ok(()) => Sent::Ok,
        Err((_, o)) => *o,
    };
    hist(|h| {
        let e = h.tick();
        h.insts[ix].end = Some((e, now(), out));
        if let (Ok(()), Some(cap)) = (&r, s.cap) {
            let taken = h.decided + h.in_apply as u64;
            let pending = h.surely_sent().saturating_sub(taken);
            ensure_for!(
                C3,
                pending <= cap as u64,
                "over-capacity",
                "{pending} collactions are pending in a queue of capacity {cap}"
            );
        }
        if h.engine_drop_begun.is_none() {
            ensure_for!(&["C03", "C02"], out != Sent::HungUp, "hang-up-while-alive", "a send reported a hang-up while the engine lives");
        }
        if drop_done_b {
            ensure_for!(C3, out == Sent::HungUp, "send-after-hang-up", "sending to an engine that is gone gave {out:?}");
        }
        if matches!(out, Sent::Full | Sent::TimedOut) {
            match s.cap {
                None => broken(C3, "unbounded-refuses", &format!("an unbounded queue answered {out:?}")),
                Some(0) => {}
                Some(cap) => {
                    // Upper bound of what was pending at any moment of the call.
                    let later = h.insts[ix + 1..].iter().count() as u64;
                    let most = (begun_b + later).saturating_sub(decided_b);
                    ensure_for!(
                        C3,
                        most >= cap as u64,
                        "refused-with-room",
                        "{out:?} although at most {most} were pending in a queue of capacity {cap}"
                    );
                }
            }
        }
    });
    if let Mode::Timed(d) = mode {
        if out == Sent::TimedOut {
            ensure_for!(
                C3,
                Duration::from_nanos(waited) >= d,
                "gave-up-early",
                "a send with timeout {d:?} gave up after {:?}",
                Duration::from_nanos(waited)
            );
            if s.strict {
                ensure_for!(
                    C3,
                    Duration::from_nanos(waited) <= d + Duration::from_nanos(s.slack_ns),
                    "gave-up-late",
                    "a send with timeout {d:?} gave up after {:?}",
                    Duration::from_nanos(waited)
                );
            }
            probe("send timed out");
        }
    }
    if s.strict && (mode == Mode::Try || s.cap.is_none()) {
        ensure_for!(
            C3,
            blocked <= BLOCKED_SLACK_NS,
            "send-blocks",
            "a send that must not block was blocked for {:?}",
            Duration::from_nanos(blocked)
        );
    }
    match out {
        Sent::Ok => {
            if blocked > 0 && mode != Mode::Try {
                probe("sender waited for room");
            }
        }
        Sent::Full => probe("non-blocking send refused"),
        Sent::TimedOut => {}
        Sent::HungUp => probe("send found the engine gone"),
    }
    ev!("{who} -> {out:?}");
    if let Err((c, _)) = &r {
        if let Some(d) = differs(c, spec, true) {
            broken(C3, "returned-changed", &format!("a refused collaction came back changed: {d}"));
        }
    }
    r
}

// ---- producers ----

#[derive(Clone, Debug)]
enum Step {
    Send(Spec, Mode, u32),
    Sleep(u64),
    /// Sleeps until some thread's wait is about to end.
    Align(usize),
    Split,
    Crash,
}
fn producer(who: usize, tx: Tx, plan: Vec<Step>) {
    let mut txs = vec![tx];
    let name = format!("p{who}");
    for (k, st) in plan.into_iter().enumerate() {
        match st {
            Step::Sleep(ns) => sleep_ns(ns),
            Step::Align(k) => align(k),
            Step::Split => {
                let t = txs[0].another();
                txs.push(t);
                if txs.len() > 2 {
                    txs.remove(0);
                }
            }
            Step::Crash => {
                fault("producer_crash");
                ev!("{name} crashes");
                panic!("simulated crash");
            }
            Step::Send(spec, mode, retries) => {
                let mut c = build(&spec);
                let tx = &txs[k % txs.len()];
                let mut left = retries;
                loop {
                    match send(&name, tx, c, &spec, mode) {
                        Ok(()) => break,
                        Err((back, Sent::HungUp)) => {
                            drop(back);
                            return;
                        }
                        Err((back, _)) => {
                            if left == 0 {
                                probe("producer gave up on a collaction");
                                break;
                            }
                            left -= 1;
                            sleep_ns(200_000);
                            c = back;
                        }
                    }
                }
            }
        }
    }
    ev!("{name} is done");
}

// ---- the model of the working copy ----

struct Slot {
    h: DynStateHandle,
    obj: usize,
    live: bool,
    val: Val,
}
struct Model {
    slots: Vec<Slot>,
    objs: Vec<(ObjectHandle, bool)>,
    time: i64,
}
impl Model {
    /// Applies atomically; the reason if it must be rejected.
    fn apply(&mut self, s: &Spec) -> Result<(), String> {
        let mut undo: Vec<(usize, Val)> = Vec::new();
        let mut fail = None;
        for (i, a) in s.acts.iter().enumerate() {
            match a {
                Act::Assert(_, k, v) => {
                    let sl = &self.slots[*k];
                    if !sl.live {
                        fail = Some(format!("action {i}: stale handle"));
                    } else if !sl.val.equal(v) {
                        fail = Some(format!("action {i}: assertion"));
                    }
                }
                Act::Write(h, k, v) => {
                    let sl = &mut self.slots[*k];
                    if !sl.live {
                        fail = Some(format!("action {i}: stale handle"));
                    } else if sl.val.ty() != v.ty() {
                        fail = Some(format!("action {i}: wrong type"));
                    } else {
                        debug_assert!(*h == sl.h);
                        undo.push((*k, std::mem::replace(&mut sl.val, v.clone())));
                    }
                }
                Act::ChanAssert(..) | Act::ChanWrite(..) => {}
            }
            if let Some(f) = fail {
                for (k, v) in undo.into_iter().rev() {
                    self.slots[k].val = v;
                }
                return Err(f);
            }
        }
        Ok(())
    }
}
fn compare(b: &Baseline, m: &Model, what: &str, props: &[&str]) {
    for (k, s) in m.slots.iter().enumerate() {
        match (b.state(s.h), s.live) {
            (Ok(r), true) => {
                let got = Val::of_ref(r.0);
                ensure_for!(
                    props,
                    got.same(&s.val),
                    "wrong-value",
                    "{what}: slot {k} of object {} is {} instead of {}",
                    s.obj,
                    show(&got),
                    show(&s.val)
                );
            }
            (Err(_), false) => {}
            (Ok(_), false) => broken(&["C01", "C07"], "stale-handle-reads", &format!("{what}: stale handle of slot {k} still reads a value")),
            (Err(e), true) => broken(props, "value-gone", &format!("{what}: slot {k} can't be read any more: {e}")),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Emph {
    Atomic,
    Order,
    Capacity,
    Waiting,
    Time,
}

fn gen_ticks() -> i32 {
    match choose(8) {
        0 | 1 => choose(50) as i32,
        2 => 1000,
        3 => -(choose(50) as i32),
        4 => i32::MAX,
        5 => i32::MIN,
        6 => i32::MAX - choose(3) as i32,
        _ => bits64() as i32,
    }
}
pub fn check_seconds(t: Ticks, model: i64) {
    let p = &["C05"];
    let tps = Ticks::ticks_per_second() as i64;
    ensure_for!(p, t.as_millis() as i64 == model, "time-wrong", "realm time is {} ticks instead of {model}", t.as_millis());
    ensure_for!(p, t.as_millis_i64() == model, "time-wrong", "realm time is {} ticks instead of {model}", t.as_millis_i64());
    ensure_for!(p, t.as_secs() as i64 == model / tps, "seconds-wrong", "{model} ticks read as {} whole seconds", t.as_secs());
    let want = model as f64 / tps as f64;
    let got = t.as_secs_f32() as f64;
    ensure_for!(
        p,
        (got - want).abs() <= want.abs() * 4.0 / (1u64 << 24) as f64 + 1e-30,
        "seconds-wrong",
        "{model} ticks read as {got} seconds"
    );
}

fn swarm(e: Emph) -> (Config, bool, bool) {
    let fine = chance(2, 5);
    let faults = chance(1, 2);
    let mut c = Config {
        policy: [0, 1, 2][choose(3)],
        switch_pct: [10, 40, 2][choose(3)],
        step_ns: 1000,
        pct_log: 6,
        ..Config::default()
    };
    if fine {
        c.fine_log = [6, 9, 12][choose(3)];
        c.fine_ns = [0, 20][choose(2)];
    }
    if faults {
        if chance(1, 2) {
            c.spurious_pm = [20, 200][choose(2)];
        }
        if chance(1, 2) {
            c.eintr_pm = [20, 200][choose(2)];
        }
        if chance(1, 3) {
            c.stall_pm = [2, 20][choose(2)];
            c.stall_max_us = [50, 5000, 3_000_000][choose(3)];
        }
        if chance(1, if e == Emph::Time { 2 } else { 4 }) {
            c.jump_pm = [1, 10][choose(2)];
            c.jump_max_ms = [5, 1000, 100_000][choose(3)];
        }
    }
    c.max_atomics = 8_000_000;
    (c, c.stall_pm == 0 && c.jump_pm == 0 && !fine, fine)
}

fn scenario(e: Emph) {
    // ---- the realm ----
    let mut realm = Realm::new(RealmID::new("sim".into()));
    let mut pool = Pool::default();
    let n_objs = range(1, 4);
    let mut mains: Vec<(DynStateHandle, Val)> = Vec::new();
    let mut model = Model { slots: Vec::new(), objs: Vec::new(), time: 0 };
    let mut chans: Vec<DynChannelHandle> = Vec::new();
    let full = {
        // Main: values that nothing may change.
        let b = realm.baseline_mut(BaselineKind::Main);
        let c: Mixed = b.register_contract().expect("register");
        for _ in 0..2 {
            let vals: Vec<Val> = Mixed::state_types().iter().map(|t| Val::gen(*t, &pool)).collect();
            let ch: Vec<(usize, Frames)> = Mixed::channel_types().iter().map(|t| (*t, Vec::new())).collect();
            let o = create(b, &c, &vals, &ch).expect("create");
            let (hs, _) = bind_all(b, &c, o).expect("bind");
            mains.extend(hs.into_iter().zip(vals));
        }
        let b = realm.baseline_mut(BaselineKind::Fork);
        let tagc: Pair = b.register_contract().expect("register");
        let mixed: Mixed = b.register_contract().expect("register");
        let full: Full = b.register_contract().expect("register");
        pool.cons = vec![
            tp_client::contract::Contract::handle(&tagc),
            tp_client::contract::Contract::handle(&mixed),
            tp_client::contract::Contract::handle(&full),
        ];
        let o = create(b, &tagc, &[Val::One(One::U64(0)), Val::One(One::U64(0))], &[]).expect("create");
        pool.objs.push(o);
        let (hs, _) = bind_all(b, &tagc, o).expect("bind");
        model.objs.push((o, true));
        for h in hs {
            model.slots.push(Slot { h, obj: 0, live: true, val: Val::One(One::U64(0)) });
        }
        for k in 0..n_objs {
            add_object(b, &mixed, &full, &mut pool, &mut model, &mut chans, k == 0);
        }
        // Some objects are already gone when the clients start.
        if chance(1, 3) {
            let k = 1 + choose(model.objs.len() - 1);
            remove_object(b, &mut model, k);
            if chance(1, 2) {
                add_object(b, &mixed, &full, &mut pool, &mut model, &mut chans, false);
            }
        }
        (mixed, full)
    };
    let (mixed, full) = full;

    // ---- the queue ----
    let cap = match e {
        Emph::Capacity => [Some(1), Some(0), Some(2), Some(3), Some(7)][choose(5)],
        _ => [None, Some(1), Some(4), Some(0), Some(40)][choose(5)],
    };
    let cap = if e == Emph::Capacity && chance(1, 6) { None } else { cap };
    let chan_tags = chance(1, 3) && !chans.is_empty();
    let (conf, strict, fine) = swarm(e);
    SETUP.with(|s| {
        *s = Some(Setup { cap, strict, fine, slack_ns: 3_000_000 });
    });
    HIST.with(|h| *h = Some(Hist::default()));

    // ---- plans of the producers ----
    let n_prod = range(1, 4);
    let big = chance(1, 12) && !fine;
    let mut next_tag = 1u64;
    let mut plans = Vec::new();
    let mut leak = chance(1, 5);
    for p in 0..n_prod {
        let n = if big { range(20, 50) } else { range(0, 7) };
        let mut plan = Vec::new();
        for _ in 0..n {
            match weighted(&[10, if big { 1 } else { 3 }, 1, (e != Emph::Order) as usize]) {
                0 | 3 => {
                    let spec = gen_spec(&model, &pool, &chans, &mut next_tag, chan_tags, e);
                    let mode = match choose(4) {
                        0 => Mode::Block,
                        1 => Mode::Try,
                        2 => Mode::Timed(gen_wait(false)),
                        _ => Mode::Block,
                    };
                    plan.push(Step::Send(spec, mode, choose(4) as u32));
                }
                1 if chance(1, 2) => plan.push(Step::Align(choose(5))),
                1 => plan.push(Step::Sleep(gen_sleep())),
                _ => plan.push(Step::Split),
            }
        }
        if chance(1, 8) {
            let at = choose(plan.len() + 1);
            plan.insert(at, Step::Crash);
        }
        if p == 0 && leak {
            // A client that keeps its sender long after its last send.
            plan.push(Step::Sleep(8_000_000_000));
            leak = false;
        }
        plans.push(plan);
    }
    let total: usize = plans.iter().flatten().filter(|s| matches!(s, Step::Send(..))).count();
    let hang_up_after = if chance(1, 4) { Some(choose(total + 1)) } else { None };
    let mut own_keep = if chance(1, 4) { choose(10) } else { 0 };

    summary(&format!(
        "capacity {cap:?}, {n_prod} producers, {total} collactions, {} slots, policy {}{}{}, engine {}",
        model.slots.len(),
        conf.policy,
        if fine { ", preemption at atomics" } else { "" },
        if conf.stall_pm + conf.jump_pm + conf.eintr_pm + conf.spurious_pm > 0 { ", faults" } else { "" },
        hang_up_after.map_or("drains".to_string(), |k| format!("leaves after {k}"))
    ));
    ev!("capacity {cap:?}, {n_prod} producers, {total} collactions, tags by {}", if chan_tags { "channel action" } else { "write" });

    let (engine, first) = Engine::new(realm, cap);
    let mut engine = Some(engine);
    let first = Tx::new(first);
    set_config(&conf);
    // specs by tag, for the engine side
    let specs: std::collections::BTreeMap<u64, Spec> = plans
        .iter()
        .flatten()
        .filter_map(|s| match s {
            Step::Send(s, ..) => s.tag.map(|t| (t, s.clone())),
            _ => None,
        })
        .collect();
    let mut kids = Vec::new();
    for (p, plan) in plans.into_iter().enumerate() {
        let tx = first.another();
        kids.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || producer(p, tx, plan))
                .expect("spawn"),
        );
    }
    let mut own = Some(first);
    if own_keep == 0 {
        own = None;
    }

    // ---- the engine's host ----
    let mut decided = 0usize;
    let mut rejected_back: Vec<(Collaction, Spec)> = Vec::new();
    let mut idle_polls = 0;
    loop {
        if hang_up_after.map_or(false, |k| decided >= k) {
            break;
        }
        let eng = engine.as_mut().expect("engine");
        // The host's own business between calls.
        match weighted(&[12, if e == Emph::Time { 12 } else { 2 }, 1, 1, 2, 1]) {
            1 => {
                let t = gen_ticks();
                ev!("tick {t}");
                let before = model.time;
                if let Err(m) = catching(|| eng.tick(Ticks::new(t))) {
                    broken(&["C05"], "tick-panics", &format!("ticking panicked: {m}"));
                }
                model.time = (model.time + t as i64).clamp(i32::MIN as i64, i32::MAX as i64);
                if t >= 0 {
                    ensure_for!(&["C05"], eng.realm().time().ticks().as_millis() as i64 >= before, "time-backwards", "a tick of {t} moved time back");
                }
                if model.time == i32::MAX as i64 || model.time == i32::MIN as i64 {
                    probe("realm time at a limit");
                }
            }
            2 if model.objs.iter().filter(|o| o.1).count() > 2 => {
                let live: Vec<usize> = (1..model.objs.len()).filter(|k| model.objs[*k].1).collect();
                let k = pick(&live);
                ev!("host removes object {k}");
                remove_object(eng.realm_mut().baseline_mut(BaselineKind::Fork), &mut model, k);
                probe("object removed while collactions were pending");
            }
            3 if model.objs.len() < 7 => {
                ev!("host creates an object");
                add_object(eng.realm_mut().baseline_mut(BaselineKind::Fork), &mixed, &full, &mut pool, &mut model, &mut chans, false);
            }
            4 => {
                let live: Vec<usize> = (2..model.slots.len()).filter(|k| model.slots[*k].live).collect();
                if !live.is_empty() {
                    let k = pick(&live);
                    let v = Val::gen(model.slots[k].val.ty(), &pool);
                    if write_state(eng.realm_mut().baseline_mut(BaselineKind::Fork), model.slots[k].h, &v, 1).is_ok() {
                        model.slots[k].val = v;
                    }
                }
            }
            5 if chance(1, 3) => align(choose(5)),
            5 => sleep_ns(gen_sleep()),
            _ => {}
        }
        // Retry something that was rejected, through the host's own sender.
        if let Some(o) = &own {
            if !rejected_back.is_empty() && chance(1, 2) {
                let (c, spec) = rejected_back.swap_remove(0);
                probe("rejected collaction retried");
                if let Err((c, _)) = send("host", o, c, &spec, Mode::Try) {
                    rejected_back.push((c, spec));
                }
            }
            if own_keep > 0 {
                own_keep -= 1;
            }
            if own_keep == 0 {
                own = None;
                ev!("host drops its sender");
            }
        }
        // One call to the engine.
        let timed = if idle_polls > 3 || chance(1, 2) { Some(gen_wait(own.is_none())) } else { None };
        let (waiting, b_gone) = hist(|h| {
            h.tick();
            h.in_apply = true;
            h.applies_begun += 1;
            (h.waiting(), h.live_senders == 0 && h.drops_done == h.senders_made)
        });
        let t0 = now();
        if let Some(d) = timed {
            hist(|h| h.deadline = t0.saturating_add(d.as_nanos() as u64));
        }
        let blocked0 = blocked_ns();
        let time0 = eng.realm().time();
        ev!("engine {}", timed.map_or("polls".to_string(), |d| format!("waits up to {d:?}")));
        enum Got {
            Nothing,
            HungUp,
            Done(Result<Collaction, Collaction>),
        }
        let got = catching(|| match timed {
            None => match eng.try_apply() {
                Ok(r) => Got::Done(r),
                Err(TryRecvError::Empty) => Got::Nothing,
                Err(TryRecvError::Disconnected) => Got::HungUp,
            },
            Some(d) => match eng.apply_timeout(d) {
                Ok(r) => Got::Done(r),
                Err(RecvTimeoutError::Timeout) => Got::Nothing,
                Err(RecvTimeoutError::Disconnected) => Got::HungUp,
            },
        });
        let got = match got {
            Ok(g) => g,
            Err(m) => broken(&[], "engine-panics", &format!("the engine panicked: {m}")),
        };
        let waited = now() - t0;
        let blocked = blocked_ns() - blocked0;
        let c4 = &["C04"];
        if timed.is_none() && strict {
            ensure_for!(c4, blocked <= BLOCKED_SLACK_NS, "poll-blocks", "polling blocked for {:?}", Duration::from_nanos(blocked));
        }
        let e_live = hist(|h| {
            h.tick();
            h.in_apply = false;
            h.live_senders
        });
        match got {
            Got::Nothing => {
                ev!("engine finds nothing after {waited} ns");
                idle_polls += 1;
                ensure_for!(
                    &["C04", "C02"],
                    waiting == 0,
                    "missed",
                    "reported that nothing is pending although {waiting} sent collactions were undecided since before the call"
                );
                if let Some(d) = timed {
                    ensure_for!(
                        c4,
                        Duration::from_nanos(waited) >= d,
                        "timeout-early",
                        "a wait of {d:?} timed out after {:?}",
                        Duration::from_nanos(waited)
                    );
                    if strict {
                        ensure_for!(
                            c4,
                            Duration::from_nanos(waited) <= d + Duration::from_nanos(setup().slack_ns),
                            "timeout-late",
                            "a wait of {d:?} timed out after {:?}",
                            Duration::from_nanos(waited)
                        );
                        // Something that arrived well within the wait should have ended it.
                        let late = hist(|h| {
                            h.waiting_since(now().saturating_sub(2 * setup().slack_ns))
                        });
                        ensure_for!(c4, late == 0, "arrival-missed", "{late} collactions arrived during the wait of {d:?}, which still timed out");
                    }
                    probe("wait timed out");
                }
                ensure_for!(c4, !b_gone, "hang-up-missed", "all senders were gone and nothing was pending, but no disconnection was reported");
            }
            Got::HungUp => {
                ev!("engine is told that all senders are gone");
                ensure_for!(c4, e_live == 0, "false-hang-up", "disconnection reported while {e_live} senders live");
                ensure_for!(&["C04", "C02"], waiting == 0, "hang-up-before-drained", "disconnection reported with {waiting} collactions undecided");
                if b_gone && strict {
                    ensure_for!(c4, blocked <= BLOCKED_SLACK_NS, "hang-up-late", "reporting the disconnection took {:?}", Duration::from_nanos(blocked));
                }
                let left = hist(|h| h.waiting());
                ensure_for!(&["C04", "C02"], left == 0, "lost", "{left} collactions were accepted but never decided");
                probe("drained to disconnection");
                break;
            }
            Got::Done(r) => {
                idle_polls = 0;
                decided += 1;
                let fork = eng.realm().baseline(BaselineKind::Fork);
                let (c, accepted) = match r {
                    Ok(c) => (c, true),
                    Err(c) => (c, false),
                };
                // Which one is it?
                let tag = if chan_tags {
                    tag_of(&c)
                } else if accepted {
                    if c.actions().is_empty() {
                        None
                    } else {
                        match fork.state(model.slots[0].h).map(|r| Val::of_ref(r.0)) {
                            Ok(Val::One(One::U64(t))) => Some(t),
                            _ => None,
                        }
                    }
                } else {
                    first_write(&c)
                };
                ev!("engine {} {tag:?}", if accepted { "applies" } else { "rejects" });
                let spec = match tag {
                    None => {
                        ensure_for!(C2, c.actions().is_empty(), "invented", "the engine decided a collaction that nobody sent");
                        Spec { tag: None, acts: Vec::new() }
                    }
                    Some(t) => match specs.get(&t) {
                        Some(s) => s.clone(),
                        None => broken(&["C02", "C01"], "invented", &format!("the engine decided a collaction with tag {t}, which nobody sent")),
                    },
                };
                hist(|h| {
                    let s = h.tick();
                    h.decided += 1;
                    let refused = |i: &Inst| i.end.map_or(false, |e| e.2 != Sent::Ok);
                    let hit = h.insts.iter_mut().filter(|i| i.tag == tag && i.decided.is_none() && !refused(i)).min_by_key(|i| i.end.is_none());
                    match hit {
                        Some(i) => {
                            i.decided = Some(s);
                            if strict && tag.is_some() && timed.is_some() && setup().cap != Some(0) {
                                if let Some((_, at, _)) = i.end {
                                    let since = at.max(t0).max(i.begin_t);
                                    let late = now().saturating_sub(since);
                                    ensure_for!(
                                        &["C04"],
                                        late <= 2 * setup().slack_ns,
                                        "woken-late",
                                        "a waiting engine took {:?} to notice a collaction",
                                        Duration::from_nanos(late)
                                    );
                                }
                            }
                        }
                        None => {
                            let m = format!("collaction {tag:?} was decided again, or after its send was refused");
                            broken(C2, "decided-twice", &m)
                        }
                    }
                });
                if let Some(d) = differs(&c, &spec, !accepted) {
                    broken(if accepted { &["C02", "C01"] } else { &["C01", "C02"] }, "handed-back-changed", &format!("collaction {tag:?} came back changed: {d}"));
                }
                let before: Vec<Val> = if accepted { Vec::new() } else { model.slots.iter().map(|s| s.val.clone()).collect() };
                let want = model.apply(&spec);
                nontrivial();
                match (&want, accepted) {
                    (Ok(()), true) => {
                        probe("collaction applied");
                    }
                    (Err(why), false) => {
                        probe("collaction rejected");
                        let _ = before;
                        ev!("  rejected rightly: {why}");
                    }
                    (Ok(()), false) => broken(&["C01"], "rejected-wrongly", &format!("collaction {tag:?} was rejected although it applies")),
                    (Err(why), true) => broken(
                        if why.contains("stale") { &["C01", "C07"] } else { &["C01"] },
                        "accepted-wrongly",
                        &format!("collaction {tag:?} was applied although it must be rejected: {why}"),
                    ),
                }
                compare(
                    fork,
                    &model,
                    &format!("after {} {tag:?}", if accepted { "applying" } else { "rejecting" }),
                    if accepted { &["C01", "C08"] } else { &["C01"] },
                );
                if !accepted && rejected_back.len() < 4 {
                    rejected_back.push((c, spec));
                }
            }
        }
        let eng = engine.as_ref().expect("engine");
        ensure_for!(&["C05"], eng.realm().time() == time0, "time-moved", "a call that applies collactions moved realm time");
        check_seconds(eng.realm().time().ticks(), model.time);
        if idle_polls > 400 {
            // The clients may all be asleep for a long time.
            sleep_ns(1_000_000_000);
        }
    }
    // ---- the end ----
    let mut eng = engine.take().expect("engine");
    compare(eng.realm().baseline(BaselineKind::Fork), &model, "at the end", &["C01"]);
    for (h, v) in &mains {
        match eng.realm().baseline(BaselineKind::Main).state(*h) {
            Ok(r) => {
                let got = Val::of_ref(r.0);
                ensure_for!(&["C01", "C08"], got.same(v), "main-changed", "a value of the main copy changed from {} to {}", show(v), show(&got));
            }
            Err(e) => broken(&["C01", "C08"], "main-changed", &format!("a value of the main copy is gone: {e}")),
        }
    }
    eng.tick(Ticks::new(0));
    hist(|h| {
        let s = h.tick();
        h.engine_drop_begun = Some(s);
    });
    ev!("engine goes away");
    drop(eng);
    hist(|h| {
        let s = h.tick();
        h.engine_dropped = Some(s);
    });
    if let Some(o) = own.take() {
        if let Some((c, spec)) = rejected_back.pop() {
            let _ = send("host", &o, c, &spec, Mode::Block);
        }
    }
    for k in kids {
        // A deadlock here is a stranded sender.
        if k.join().is_err() {
            let m = last_panic();
            let _ = m;
        }
    }
    hist(|h| {
        // Order: nothing is decided before something whose sending had ended
        // when its own began.
        let mut done: Vec<(u64, u64, u64, Option<u64>)> = h
            .insts
            .iter()
            .filter_map(|i| i.decided.map(|d| (d, i.begin, i.end.map_or(u64::MAX, |e| e.0), i.tag)))
            .collect();
        done.sort();
        let mut latest: Option<(u64, Option<u64>)> = None;
        for (_, begin, end, tag) in &done {
            if let Some((b, t)) = latest {
                ensure_for!(
                    C2,
                    tag.is_none() || t.is_none() || *end >= b,
                    "out-of-order",
                    "collaction {t:?} was decided before {tag:?}, whose sending had ended before"
                );
            }
            if tag.is_some() && latest.map_or(true, |l| *begin > l.0) {
                latest = Some((*begin, *tag));
            }
        }
    });
}

fn gen_wait(forever: bool) -> Duration {
    match choose(9) {
        0 => Duration::from_millis(1),
        1 => Duration::ZERO,
        2 => Duration::from_nanos(1),
        3 => Duration::from_micros(7),
        4 => Duration::from_micros(1_500),
        5 => Duration::from_millis(50),
        6 => Duration::from_secs(2),
        7 => Duration::from_nanos(1 + choose(5_000_000) as u64),
        _ => {
            if forever && chance(1, 3) {
                probe("wait without end");
                Duration::MAX
            } else {
                Duration::from_secs(3600)
            }
        }
    }
}
/// Sleeps until just before, at or after the end of a wait under way.
fn align(k: usize) {
    let until = hist(|h| if h.deadline > now() { h.deadline } else { 0 });
    let ns = match k {
        0 | 1 => until,
        2 => until.saturating_sub(1_000),
        3 => until.saturating_sub(20_000),
        _ => until.saturating_add(1_000),
    }
    .saturating_sub(now());
    if ns > 0 && ns < 10_000_000_000 {
        probe("woke as a wait was about to end");
        sleep_ns(ns);
    }
}
fn gen_sleep() -> u64 {
    [1_000_000, 1_000, 50_000, 60_000_000, 1_500_000_000][choose(5)]
}

fn add_object(
    b: &mut Baseline,
    mixed: &Mixed,
    full: &Full,
    pool: &mut Pool,
    m: &mut Model,
    chans: &mut Vec<DynChannelHandle>,
    want_full: bool,
) {
    let is_full = want_full || chance(1, 2);
    let types = if is_full { Full::state_types() } else { Mixed::state_types() };
    let ctypes = if is_full { Full::channel_types() } else { Mixed::channel_types() };
    let vals: Vec<Val> = types.iter().map(|t| Val::gen(*t, pool)).collect();
    let ch: Vec<(usize, Frames)> = ctypes.iter().map(|t| (*t, Vec::new())).collect();
    let r = if is_full { create(b, full, &vals, &ch) } else { create(b, mixed, &vals, &ch) };
    let o = match r {
        Ok(o) => o,
        Err(e) => broken(&["C09"], "create-fails", &format!("creating an object failed: {e}")),
    };
    let (hs, cs) = if is_full { bind_all(b, full, o) } else { bind_all(b, mixed, o) }
        .unwrap_or_else(|e| broken(&["C09", "C11"], "bind-fails", &format!("binding failed: {e}")));
    let k = m.objs.len();
    m.objs.push((o, true));
    pool.objs.push(o);
    for (h, val) in hs.into_iter().zip(vals) {
        m.slots.push(Slot { h, obj: k, live: true, val });
    }
    chans.extend(cs.into_iter().take(4));
}
fn remove_object(b: &mut Baseline, m: &mut Model, k: usize) {
    let n = m.slots.iter().filter(|s| s.obj == k).count();
    let r = if n == Full::state_types().len() {
        b.object_remove::<Full>(m.objs[k].0)
    } else {
        b.object_remove::<Mixed>(m.objs[k].0)
    };
    if let Err(e) = r {
        broken(&["C09"], "remove-fails", &format!("removing a live object failed: {e}"));
    }
    m.objs[k].1 = false;
    for s in m.slots.iter_mut().filter(|s| s.obj == k) {
        s.live = false;
    }
}

fn gen_spec(m: &Model, pool: &Pool, chans: &[DynChannelHandle], next_tag: &mut u64, chan_tags: bool, e: Emph) -> Spec {
    if chance(1, 25) {
        return Spec { tag: None, acts: Vec::new() };
    }
    let tag = *next_tag;
    *next_tag += 1;
    let mut acts = Vec::new();
    let n = match e {
        _ if chance(1, 16) => range(6, 24),
        Emph::Atomic => range(0, 7),
        Emph::Time => range(0, 4),
        _ => range(0, 2),
    };
    let mut mine: Vec<(usize, Val)> = Vec::new();
    for _ in 0..n {
        let k = if !mine.is_empty() && chance(1, 3) {
            mine[choose(mine.len())].0
        } else {
            2 + choose(m.slots.len() - 2)
        };
        let s = &m.slots[k];
        let ty = s.val.ty();
        // Sometimes of another type, mostly one that is easily mistaken.
        let ty2 = if chance(1, 14) {
            [(ty + 14) % 28, choose(28), (ty ^ 1) % 28][choose(3)]
        } else {
            ty
        };
        match weighted(&[6, 4, 1]) {
            0 => {
                let v = if ty2 == ty && chance(1, 4) { s.val.near(pool) } else { Val::gen(ty2, pool) };
                mine.push((k, v.clone()));
                acts.push(Act::Write(s.h, k, v));
            }
            1 => {
                let last = || mine.iter().rev().find(|x| x.0 == k).map_or(s.val.clone(), |x| x.1.clone());
                let v = match choose(10) {
                    0 | 1 => s.val.clone(),
                    2..=6 => last(),
                    7 => last().near(pool),
                    _ => Val::gen(ty2, pool),
                };
                acts.push(Act::Assert(s.h, k, v));
            }
            _ => {
                if !chans.is_empty() {
                    let h = pick(chans);
                    acts.push(Act::ChanAssert(h, Val::One(One::U8(1))));
                }
            }
        }
    }
    if chan_tags {
        let at = choose(acts.len() + 1);
        acts.insert(at, Act::ChanWrite(chans[0], Val::One(One::U64(tag))));
    } else {
        acts.insert(0, Act::Write(m.slots[0].h, 0, Val::One(One::U64(tag))));
    }
    Spec { tag: Some(tag), acts }
}

pub fn atomic() {
    scenario(Emph::Atomic)
}
pub fn order() {
    scenario(Emph::Order)
}
pub fn capacity() {
    scenario(Emph::Capacity)
}
pub fn waiting() {
    scenario(Emph::Waiting)
}
pub fn time() {
    scenario(Emph::Time)
}
