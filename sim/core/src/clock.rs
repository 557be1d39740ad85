//! An application's frame loop on a simulated clock: realm time from measured
//! durations, and object-local times through chains of warps. Decides C06 and
//! adds to C05.
use crate::contracts::*;
use crate::engine::check_seconds;
use crate::val::*;
use crate::world::*;
use dsim::*;
use std::sync::mpsc;
use std::time::{Duration, Instant};
use tp_client::baseline::BaselineKind;
use tp_client::contract::Contract;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{ChannelTime, Ticks, TimeScale, TimeWarp};
use tp_client::Engine;

const C6: &[&str] = &["C06"];
const LO: i128 = i32::MIN as i128;
const HI: i128 = i32::MAX as i128;

struct Node {
    h: ObjectHandle,
    parent: Option<usize>,
    offset: i32,
    scale: i32,
    /// Parent time and local time when last looked at, and the warp's age.
    seen: Option<(i32, i32, u64)>,
    version: u64,
}
fn gen_offset() -> i32 {
    match choose(8) {
        0 => 0,
        1 => 1000 * choose(20) as i32,
        2 => -(1000 * choose(20) as i32),
        3 => i32::MAX,
        4 => i32::MIN,
        5 => bits64() as i32,
        6 => i32::MIN + choose(1000) as i32,
        _ => choose(50) as i32 - 25,
    }
}
fn gen_scale() -> i32 {
    match choose(11) {
        0 => 1024,
        1 => 2048,
        2 => 512,
        3 => 0,
        4 => -1024,
        5 => -(choose(5000) as i32),
        6 => choose(5000) as i32,
        7 => i32::MAX,
        8 => i32::MIN,
        9 => bits64() as i32,
        _ => 1,
    }
}
/// The local time: exact, rounded down to whole ticks, and clamped.
fn exact(parent: i32, offset: i32, scale: i32) -> i32 {
    let shifted = (parent as i128 - offset as i128).clamp(LO, HI);
    let p = shifted * scale as i128;
    p.div_euclid(1024).clamp(LO, HI) as i32
}
fn ticks(t: ChannelTime) -> i32 {
    t.ticks().as_millis()
}
fn at(t: i32) -> ChannelTime {
    ChannelTime::from(Ticks::new(t))
}
fn warp(parent: i32, w: &TimeWarp) -> i32 {
    match catching(|| ticks(at(parent).warp(w))) {
        Ok(t) => t,
        Err(m) => broken(C6, "warp-panics", &format!("warping {parent} by {w:?} panicked: {m}")),
    }
}
fn one_warp(parent: i32, w: &TimeWarp, offset: i32, scale: i32) -> i32 {
    let got = warp(parent, w);
    let want = exact(parent, offset, scale);
    ensure_for!(
        C6,
        got == want,
        "warp-wrong",
        "time {parent} with offset {offset} and scale {scale}/1024 reads {got} instead of {want}"
    );
    let direct = ticks(w.apply(at(parent)));
    ensure_for!(C6, direct == got, "warp-wrong", "the two ways of warping {parent} by {w:?} give {got} and {direct}");
    // Step by step, as someone does who keeps the time in between.
    let stepwise = catching(|| {
        let mut x = Ticks::new(parent);
        x -= w.offset;
        let y = Ticks::new(parent) - w.offset;
        x *= w.scale;
        (x.as_millis(), (y * w.scale).as_millis())
    });
    ensure_for!(C6, stepwise == Ok((got, got)), "warp-wrong", "warping {parent} by {w:?} step by step gives {stepwise:?} instead of {got}");
    let (s, k) = (w.scale, scale as f64 / 1024.0);
    ensure_for!(
        C6,
        s.as_f64() == k && s.as_f32() == scale as f32 / 1024.0 && s.numerator_as_i64() == scale as i64,
        "scale-wrong",
        "a scale of {scale}/1024 reads {} and {}",
        s.as_f64(),
        s.as_f32()
    );
    got
}

enum Order {
    Warp(usize, i32, i32),
    Shift(usize, i32, bool),
    Unwarp(usize),
    Parent(usize, Option<usize>),
}

pub fn frames() {
    let mut realm = Realm::new(RealmID::new("clock".into()));
    let pool = Pool::default();
    let n = range(1, 6);
    let b = realm.baseline_mut(BaselineKind::Fork);
    let c: Pair = b.register_contract().expect("register");
    let mut nodes: Vec<Node> = (0..n)
        .map(|k| {
            let v = [Val::gen(3, &pool), Val::gen(3, &pool)];
            let h = create(b, &c, &v, &[]).expect("create");
            Node { h, parent: if k > 0 && chance(2, 3) { Some(choose(k)) } else { None }, offset: 0, scale: 1024, seen: None, version: 0 }
        })
        .collect();
    let _ = c.handle();
    let (mut eng, _tx) = Engine::new(realm, None);

    let jumps = chance(1, 2);
    let stalls = chance(1, 3);
    let conf = Config {
        policy: choose(3) as u32,
        switch_pct: [10, 40][choose(2)],
        step_ns: 1000,
        pct_log: 6,
        jump_pm: if jumps { [5, 40][choose(2)] } else { 0 },
        jump_max_ms: [100, 100_000, 2_000_000_000][choose(3)],
        stall_pm: if stalls { 10 } else { 0 },
        stall_max_us: 2_000_000,
        eintr_pm: if chance(1, 4) { 50 } else { 0 },
        spurious_pm: if chance(1, 4) { 50 } else { 0 },
        ..Config::default()
    };
    set_config(&conf);
    let frames = range(3, 60);
    let start = match choose(5) {
        0 => 0,
        1 => i32::MAX - choose(5000) as i32,
        2 => i32::MIN,
        3 => -(choose(100_000) as i32),
        _ => bits64() as i32,
    };
    summary(&format!("{n} objects, {frames} frames from {start}, jumps {jumps}, stalls {stalls}"));
    let mut model = start as i64;
    eng.tick(Ticks::new(start));

    // A director changes warps while the loop runs.
    let (tx, rx) = mpsc::channel();
    let orders: Vec<(u64, Order)> = (0..range(1, 15))
        .map(|_| {
            let k = choose(n);
            let o = match weighted(&[6, 1, 1, 2]) {
                0 => Order::Warp(k, gen_offset(), gen_scale()),
                1 => Order::Unwarp(k),
                3 => Order::Shift(k, gen_offset(), choose(2) == 1),
                _ => Order::Parent(k, if k > 0 && chance(2, 3) { Some(choose(k)) } else { None }),
            };
            ([1_000_000, 16_000_000, 200_000_000][choose(3)], o)
        })
        .collect();
    let director = std::thread::Builder::new()
        .stack_size(1 << 19)
        .spawn(move || {
            for (pause, o) in orders {
                sleep_ns(pause);
                if tx.send(o).is_err() {
                    return;
                }
            }
        })
        .expect("spawn");

    let mut last = Instant::now();
    let mut carry = 0u128;
    for f in 0..frames {
        std::thread::sleep(Duration::from_micros(range(500, 40_000) as u64));
        // What an application does: ticks from measured time.
        let now = Instant::now();
        let el = now.duration_since(last).as_nanos() + carry;
        last = now;
        carry = el % 1_000_000;
        let ms = (el / 1_000_000).min(i32::MAX as u128) as i32;
        let ms = if chance(1, 12) { [-(choose(100) as i32), 0, i32::MAX, i32::MIN, bits64() as i32][choose(5)] } else { ms };
        let before = eng.realm().time();
        if let Err(m) = catching(|| eng.tick(Ticks::new(ms))) {
            broken(&["C05"], "tick-panics", &format!("ticking by {ms} panicked: {m}"));
        }
        model = (model + ms as i64).clamp(i32::MIN as i64, i32::MAX as i64);
        ev!("frame {f}: {ms} ticks, now {model}");
        ensure_for!(&["C05"], ms < 0 || eng.realm().time() >= before, "time-backwards", "a tick of {ms} moved time back");
        check_seconds(eng.realm().time().ticks(), model);
        // Orders that have arrived.
        while let Ok(o) = rx.try_recv() {
            let b = eng.realm_mut().baseline_mut(BaselineKind::Fork);
            match o {
                Order::Warp(k, offset, scale) => {
                    let w = b.object_mut(nodes[k].h).expect("object").time_warp_mut();
                    w.offset = Ticks::new(offset);
                    w.scale = TimeScale::from(scale);
                    nodes[k].offset = offset;
                    nodes[k].scale = scale;
                    nodes[k].version += 1;
                    ev!("warp of {k}: offset {offset}, scale {scale}/1024");
                    probe("warp changed");
                }
                Order::Shift(k, d, back) => {
                    // Starts earlier or later than it did.
                    let o = &mut b.object_mut(nodes[k].h).expect("object").time_warp_mut().offset;
                    let shifted = catching(|| if back { *o -= Ticks::new(d) } else { *o += Ticks::new(d) });
                    ensure_for!(C6, shifted.is_ok(), "warp-panics", "shifting an offset by {d} panicked");
                    let sum = nodes[k].offset as i64 + if back { -(d as i64) } else { d as i64 };
                    nodes[k].offset = sum.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                    nodes[k].version += 1;
                    ev!("offset of {k} shifted to {}", nodes[k].offset);
                    probe("warp shifted in place");
                }
                Order::Unwarp(k) => {
                    *b.object_mut(nodes[k].h).expect("object").time_warp_mut() = TimeWarp::default();
                    nodes[k].offset = 0;
                    nodes[k].scale = 1024;
                    nodes[k].version += 1;
                    ev!("{k} is unwarped");
                }
                Order::Parent(k, p) => {
                    nodes[k].parent = p;
                    nodes[k].version += 1;
                    ev!("{k} moves to {p:?}");
                }
            }
            let b = eng.realm().baseline(BaselineKind::Fork);
            for (k, nd) in nodes.iter().enumerate() {
                let w = b.object(nd.h).expect("object").time_warp();
                ensure_for!(
                    &["C06", "C08"],
                    w.offset.as_millis() == nd.offset && w.scale.numerator() == nd.scale,
                    "warp-changed",
                    "the warp of object {k} is {w:?} instead of {}/{}",
                    nd.offset,
                    nd.scale
                );
            }
        }
        // Everyone's local time.
        let root = eng.realm().time().ticks().as_millis();
        ensure_for!(C6, root as i64 == model, "time-wrong", "realm time is {root} instead of {model}");
        let mut local: Vec<i32> = Vec::new();
        for k in 0..nodes.len() {
            let parent = nodes[k].parent.map_or(root, |p| local[p]);
            let w = eng.realm().baseline(BaselineKind::Fork).object(nodes[k].h).expect("object").time_warp();
            let (offset, scale) = (nodes[k].offset, nodes[k].scale);
            let t = one_warp(parent, w, offset, scale);
            if scale != 1024 || offset != 0 {
                nontrivial();
            } else {
                ensure_for!(C6, t == parent, "unwarped-differs", "an unwarped object reads {t} when its parent reads {parent}");
            }
            if t == i32::MAX || t == i32::MIN {
                probe("local time at a limit");
            }
            let zero = warp(offset, w);
            ensure_for!(C6, zero == 0, "not-zero-at-offset", "local time at offset {offset} with scale {scale}/1024 is {zero}");
            if let Some((p0, t0, v)) = nodes[k].seen {
                if v == nodes[k].version {
                    let (fwd, same) = (parent > p0, parent == p0);
                    let ok = if same {
                        t == t0
                    } else if fwd == (scale >= 0) || scale == 0 {
                        t >= t0
                    } else {
                        t <= t0
                    };
                    ensure_for!(
                        C6,
                        ok && (scale != 0 || t == t0),
                        "warp-not-monotone",
                        "parent time went from {p0} to {parent}, and local time with offset {offset} and scale {scale}/1024 from {t0} to {t}"
                    );
                    probe("same warp compared over time");
                }
            }
            nodes[k].seen = Some((parent, t, nodes[k].version));
            local.push(t);
            // Around the clock: instants near the limits and near the offset.
            let p1 = match choose(4) {
                0 => parent.saturating_add(choose(3) as i32),
                1 => i32::MIN + choose(3) as i32,
                2 => i32::MAX - choose(3) as i32,
                _ => offset.saturating_add(choose(2000) as i32 - 1000),
            };
            let t1 = one_warp(p1, w, offset, scale);
            let ok = if scale == 0 { t1 == t } else if (p1 >= parent) == (scale > 0) { t1 >= t || p1 == parent } else { t1 <= t };
            ensure_for!(C6, ok, "warp-not-monotone", "scale {scale}/1024, offset {offset}: {parent} reads {t} but {p1} reads {t1}");
        }
        ev!("local times {local:?}");
    }
    drop(rx);
    director.join().expect("join");
}
