//! Extremes of size for the realm: tens of thousands of objects, of lives of
//! one slot, of registrations and of keyframes, contracts with hundreds of
//! properties. The models are plain maps. Decides (with `realm`) C07 to C12.
use crate::contracts::*;
use crate::val::*;
use crate::world::*;
use dsim::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::DynChannelHandle;
use tp_client::contract::properties::states::id::DynStateIdPrimitive;
use tp_client::contract::properties::states::{DynStateHandle, DynStateId, StateHandle, StateId};
use tp_client::contract::{Contract, ContractDataHandle};
use tp_client::object::ObjectHandle;

/// Many decisions from one, so that a run needs few recorded ones.
struct Roll(u64);
impl Roll {
    fn new() -> Self {
        Roll(bits64())
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let y = self.0 ^ (self.0 >> 29);
        y.wrapping_mul(0xbf58476d1ce4e5b9) >> 9
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}
fn size(big: usize) -> usize {
    match weighted(&[10, 10, 6, 3, 1]) {
        0 => range(5, 40),
        1 => range(100, 300),
        2 => range(500, 1100),
        3 => range(4000, 4300),
        _ => big + choose(40),
    }
}
fn one(v: u64) -> Val {
    Val::One(One::U64(v))
}
fn ids<C: SimContract>(c: &C) -> [StateId<u64>; 2] {
    [0, 1].map(|i| match c.state_id(i) {
        Some(DynStateId::Primitive(DynStateIdPrimitive::U64(id))) => id,
        _ => broken(&["C11"], "id-wrong", &format!("there is no identifier for state {i} of {}", C::NAME)),
    })
}
const C9: &[&str] = &["C09"];
const C7: &[&str] = &["C07"];
const C10: &[&str] = &["C10"];

/// An object of one of the two-number contracts.
#[derive(Clone, Copy)]
struct Known {
    o: ObjectHandle,
    h: [StateHandle<u64>; 2],
    v: [u64; 2],
    kind: usize,
}
struct Crowd {
    b: Baseline,
    pair: Option<Pair>,
    next: Option<PairNext>,
    live: Vec<Known>,
    gone: Vec<Known>,
    /// contracts that were unregistered
    past: Vec<ContractDataHandle>,
    tag: u64,
}
impl Crowd {
    fn add(&mut self, kind: usize) {
        self.tag += 1;
        let v = [self.tag, !self.tag];
        let vals = [one(v[0]), one(v[1])];
        let (o, id) = match (kind, &self.pair, &self.next) {
            (0, Some(c), _) => (create(&mut self.b, c, &vals, &[]), ids(c)),
            (1, _, Some(c)) => (create(&mut self.b, c, &vals, &[]), ids(c)),
            _ => return,
        };
        let o = match o {
            Ok(o) => o,
            Err(m) => broken(C9, "creation-refused", &format!("creating object {} failed: {m}", self.tag)),
        };
        let h = id.map(|id| match self.b.bind_state(id, o) {
            Ok(h) => h,
            Err(m) => broken(C9, "new-object-lost", &format!("object {} can't be used after its creation: {m}", self.tag)),
        });
        self.live.push(Known { o, h, v, kind });
    }
    fn remove(&mut self, ix: usize) {
        let k = self.live.swap_remove(ix);
        let r = if k.kind == 0 { self.b.object_remove::<Pair>(k.o) } else { self.b.object_remove::<PairNext>(k.o) };
        if let Err(m) = r {
            broken(C9, "removal-refused", &format!("removing a live object failed: {m}"));
        }
        self.gone.push(k);
    }
    /// Nothing is left of what is gone.
    fn check_gone(&mut self, k: Known, what: &str) {
        ensure_for!(C7, self.b.object(k.o).is_err(), "stale-object", "{what}: a removed object can still be reached");
        for h in k.h {
            if let Ok(s) = self.b.state(h) {
                broken(C7, "stale-handle-reads", &format!("{what}: the state of a removed object reads {}", s.value));
            }
            ensure_for!(C7, self.b.state_mut(h).is_err(), "stale-handle-writes", "{what}: the state of a removed object can still be written");
        }
        for id in self.pair.iter().flat_map(|c| ids(c)).chain(self.next.iter().flat_map(|c| ids(c))) {
            ensure_for!(C7, self.b.bind_state(id, k.o).is_err(), "stale-object-binds", "{what}: a removed object can still be bound");
        }
        let again = catching(|| if k.kind == 0 { self.b.object_remove::<Pair>(k.o).is_ok() } else { self.b.object_remove::<PairNext>(k.o).is_ok() });
        ensure_for!(&["C07", "C09"], !again.unwrap_or(false), "removed-twice", "{what}: a removed object can be removed again");
    }
    fn audit(&mut self, what: &str) {
        let mut seen: HashSet<ObjectHandle> = HashSet::new();
        for (o, _) in self.b.iter_objects() {
            ensure_for!(C9, seen.insert(o), "enumerated-twice", "{what}: an object is enumerated twice");
        }
        ensure_for!(C9, seen.len() == self.live.len(), "wrong-number", "{what}: {} objects are enumerated instead of {}", seen.len(), self.live.len());
        let mut per: [Option<(ContractDataHandle, HashSet<ObjectHandle>)>; 2] = [None, None];
        for (k, h) in [self.pair.as_ref().map(|c| c.handle()), self.next.as_ref().map(|c| c.handle())].into_iter().enumerate() {
            if let Some(h) = h {
                match self.b.contract_data(h) {
                    Ok(d) => per[k] = Some((h, d.objects().clone())),
                    Err(m) => broken(C10, "contract-gone", &format!("{what}: a registered contract is gone: {m}")),
                }
            }
        }
        let mut counts = [0, 0];
        for k in &self.live {
            counts[k.kind] += 1;
            ensure_for!(C9, seen.contains(&k.o), "not-enumerated", "{what}: a live object isn't enumerated");
            let Some((h, list)) = &per[k.kind] else { continue };
            ensure_for!(C9, list.contains(&k.o), "not-listed", "{what}: a live object isn't in its contract's list");
            ensure_for!(&["C09", "C10"], self.b.object(k.o).map_or(false, |o| o.contract() == *h), "wrong-contract", "{what}: an object has another contract, or is gone");
            for i in 0..2 {
                let got = self.b.state(k.h[i]).map(|s| s.value);
                ensure_for!(&["C08", "C09", "C10"], got.as_ref().ok() == Some(&k.v[i]), "wrong-value", "{what}: state {i} of an object is {got:?} instead of {}", k.v[i]);
            }
        }
        for k in 0..2 {
            if let Some((_, list)) = &per[k] {
                ensure_for!(C9, list.len() == counts[k], "list-wrong", "{what}: a contract lists {} objects instead of {}", list.len(), counts[k]);
            }
        }
        let gone = std::mem::take(&mut self.gone);
        for k in &gone {
            self.check_gone(*k, what);
        }
        self.gone = gone;
        for &h in &self.past {
            ensure_for!(&["C07", "C10"], self.b.contract_data(h).is_err(), "stale-contract", "{what}: an unregistered contract can still be reached");
        }
    }
    fn unregister(&mut self, kind: usize) {
        let r = if kind == 0 {
            match self.pair.take() {
                Some(c) => (c.handle(), catching(|| self.b.unregister_contract::<Pair>(c.handle()))),
                None => return,
            }
        } else {
            match self.next.take() {
                Some(c) => (c.handle(), catching(|| self.b.unregister_contract::<PairNext>(c.handle()))),
                None => return,
            }
        };
        match r.1 {
            Ok(Ok(())) => {}
            Ok(Err(m)) => broken(C10, "unregistering-refused", &format!("unregistering failed: {m}")),
            Err(m) => broken(C10, "unregistering-panics", &format!("unregistering panicked: {m}")),
        }
        self.past.push(r.0);
        let (gone, live) = self.live.drain(..).partition(|k| k.kind == kind);
        self.live = live;
        self.gone.extend::<Vec<Known>>(gone);
    }
    fn register(&mut self, kind: usize) {
        fn bad<T>(m: String) -> T {
            broken(C10, "registration-refused", &format!("registering failed: {m}"))
        }
        if kind == 0 && self.pair.is_none() {
            self.pair = Some(self.b.register_contract().unwrap_or_else(|e| bad(e.to_string())));
        }
        if kind == 1 && self.next.is_none() {
            self.next = Some(self.b.register_contract().unwrap_or_else(|e| bad(e.to_string())));
        }
    }
}
fn new_crowd() -> Crowd {
    let kind = [BaselineKind::Main, BaselineKind::Fork][choose(2)];
    let mut c = Crowd { b: Baseline::new(kind), pair: None, next: None, live: Vec::new(), gone: Vec::new(), past: Vec::new(), tag: 0 };
    c.register(0);
    c.register(1);
    c
}

/// Many objects at once, most of which come and go.
pub fn crowd() {
    let mut c = new_crowd();
    let n = size(65_536);
    let mut r = Roll::new();
    summary(&format!("{n} objects at once"));
    ev!("{n} objects");
    let both = chance(1, 2);
    for _ in 0..n {
        c.add(if both { r.below(2) } else { 0 });
    }
    c.audit("after creating");
    for round in 0..range(1, 3) {
        let how = choose(5);
        ev!("round {round}: removes as {how}");
        let m = c.live.len();
        let want: Vec<bool> = (0..m)
            .map(|i| match how {
                0 => true,
                1 => i % 2 == 0,
                2 => i < m / 2,
                3 => i >= m / 2,
                _ => r.below(3) == 0,
            })
            .collect();
        // swap_remove only moves what was already looked at
        for i in (0..m).rev() {
            if want[i] {
                c.remove(i);
            }
        }
        c.audit("after removing");
        let back = r.below(n + 1);
        for _ in 0..back {
            c.add(if both { r.below(2) } else { 0 });
        }
        // Writes through handles that are old by now.
        for i in 0..c.live.len().min(50) {
            let i = (i * 7) % c.live.len();
            let v = r.next();
            let k = &mut c.live[i];
            k.v[1] = v;
            match c.b.state_mut(k.h[1]) {
                Ok(s) => s.value = v,
                Err(m) => broken(&["C08", "C09"], "value-gone", &format!("a live state can't be written: {m}")),
            }
        }
        c.audit("after creating again");
        if chance(1, 2) {
            let k = choose(2);
            c.unregister(k);
            c.audit("after unregistering");
            c.register(k);
            for _ in 0..r.below(n + 1) {
                c.add(k);
            }
            c.audit("after registering again");
        }
    }
    for k in 0..2 {
        c.unregister(k);
    }
    c.audit("after unregistering both");
    probe(if n > 60_000 { "more than 60000 objects" } else if n > 255 { "more than 255 objects" } else { "up to 255 objects" });
    nontrivial();
}

/// One slot lives and dies many times over, as do registrations.
pub fn lives() {
    let mut c = new_crowd();
    let mut r = Roll::new();
    for _ in 0..choose(4) {
        c.add(1);
    }
    let n = size(65_536);
    let what = choose(3);
    summary(&format!("{n} lives of one slot, way {what}"));
    ev!("{n} lives, way {what}");
    let every = if n > 10_000 { n } else { 1 + n / 4 };
    for k in 0..n {
        match what {
            // An object comes and goes.
            0 => {
                c.add(0);
                c.remove(c.live.len() - 1);
            }
            // A contract comes and goes, at times with an object.
            1 => {
                c.unregister(0);
                c.register(0);
                if r.below(4) == 0 {
                    c.add(0);
                }
                if k % 64 == 63 {
                    // The identifiers of an earlier registration denote nothing.
                    let old = c.past[r.below(c.past.len())];
                    let ghost = <Pair as Contract>::new(old);
                    ensure_for!(&["C07", "C09"], create(&mut c.b, &ghost, &[one(1), one(2)], &[]).is_err(), "stale-contract-creates", "an object was created through an unregistered contract");
                    c.add(0);
                    let o = c.live[c.live.len() - 1].o;
                    for id in ids(&ghost) {
                        ensure_for!(C7, c.b.bind_state(id, o).is_err(), "stale-id-binds", "an identifier of an unregistered contract was bound to an object of a later one");
                    }
                    ensure_for!(&["C07", "C10"], c.b.unregister_contract::<Pair>(old).is_err(), "stale-contract-unregisters", "an unregistered contract was unregistered again");
                }
            }
            // Objects come and go, the newest or the oldest first.
            _ => {
                c.add(0);
                if c.live.len() > 6 {
                    let ix = [0, c.live.len() - 1, r.below(c.live.len())][r.below(3)];
                    c.remove(ix);
                }
            }
        }
        if k % every == every - 1 {
            c.audit("meanwhile");
        }
    }
    c.audit("at the end");
    // What went first, over and over, against all that came later.
    for _ in 0..3 {
        c.add(0);
    }
    c.audit("with new objects");
    probe(if n > 60_000 { "more than 60000 lives of one slot" } else if n > 255 { "more than 255 lives of one slot" } else { "up to 255 lives of one slot" });
    nontrivial();
}

/// Channels of many keyframes, that arrive in any order.
pub fn reels() {
    const P: &[&str] = &["C12"];
    let mut b = Baseline::new(BaselineKind::Main);
    let c: Mixed = b.register_contract().expect("register");
    let mut r = Roll::new();
    let n = size(65_536);
    let spread = [1usize << 40, 1 << 16, 300, 3][choose(4)];
    let order = choose(5);
    summary(&format!("{n} keyframes, {spread} different times, order {order}"));
    ev!("{n} keyframes, {spread} different times, order {order}");
    // Every value occurs once, so that it can be told whose time it has.
    let mut ks: Vec<(u64, f64)> = (0..n)
        .map(|i| {
            let t = (r.below(spread) as f64 - (spread / 3) as f64) / 8.0;
            (i as u64, t)
        })
        .collect();
    match order {
        1 => ks.sort_by(|a, b| a.1.total_cmp(&b.1)),
        2 => ks.sort_by(|a, b| b.1.total_cmp(&a.1)),
        3 => {
            // nearly sorted
            ks.sort_by(|a, b| a.1.total_cmp(&b.1));
            for _ in 0..1 + r.below(4) {
                let (i, j) = (r.below(n), r.below(n));
                ks.swap(i, j);
            }
        }
        4 => {
            // sorted runs, as from several senders
            ks.sort_by(|a, b| a.1.total_cmp(&b.1));
            let m = 2 + r.below(5);
            let mut out = Vec::new();
            for k in 0..m {
                out.extend(ks.iter().skip(k).step_by(m).copied());
            }
            ks = out;
        }
        _ => {}
    }
    let frames: Frames = ks.iter().map(|(v, t)| (one(*v), *t)).collect();
    let types = Mixed::channel_types();
    let ch: Vec<(usize, Frames)> = types.iter().enumerate().map(|(i, t)| (*t, if i == 1 { frames.clone() } else { Vec::new() })).collect();
    let vals: Vec<Val> = Mixed::state_types().iter().map(|t| Val::gen(*t, &Pool::default())).collect();
    let o = match create(&mut b, &c, &vals, &ch) {
        Ok(o) => o,
        Err(m) => broken(&["C09", "C12"], "creation-refused", &format!("creating an object with {n} keyframes failed: {m}")),
    };
    let (_, hs) = bind_all(&b, &c, o).unwrap_or_else(|m| broken(P, "channel-gone", &m));
    let h: DynChannelHandle = hs[1];
    let want: HashMap<u64, f64> = ks.iter().copied().collect();
    for path in 0..CHANNEL_PATHS {
        let got = read_channel(&b, h, path).unwrap_or_else(|m| broken(P, "channel-gone", &m));
        ensure_for!(P, got.len() == n, "keyframes-lost", "a channel of {n} keyframes holds {}", got.len());
        let mut seen: BTreeMap<u64, ()> = BTreeMap::new();
        let mut last = f64::NEG_INFINITY;
        for (v, t) in &got {
            let v = match v {
                Val::One(One::U64(v)) => *v,
                _ => u64::MAX,
            };
            ensure_for!(P, want.get(&v).map(|t| t.to_bits()) == Some(t.to_bits()), "keyframe-altered", "keyframe {v} has time {t} instead of {:?}", want.get(&v));
            ensure_for!(P, seen.insert(v, ()).is_none(), "keyframe-duplicated", "keyframe {v} occurs twice");
            ensure_for!(P, *t >= last, "out-of-order", "a keyframe at {t} follows one at {last}");
            last = *t;
        }
    }
    probe(if n > 60_000 { "more than 60000 keyframes" } else if n > 255 { "more than 255 keyframes" } else { "up to 255 keyframes" });
    nontrivial();
}

/// A contract of hundreds of properties.
pub fn wide() {
    let mut b = Baseline::new([BaselineKind::Main, BaselineKind::Fork][choose(2)]);
    let c: Wide = b.register_contract().expect("register");
    let (ns, nc) = (Wide::state_types().len(), Wide::channel_types().len());
    let objs = range(1, 3);
    summary(&format!("{objs} objects of {ns} states and {nc} channels"));
    ev!("{objs} objects of {ns} states and {nc} channels");
    let value = |o: usize, i: usize, turn: u64| one(turn << 40 | (o as u64) << 20 | i as u64);
    let reel = |o: usize, i: usize, turn: u64| -> Frames { vec![(value(o, i, turn), o as f64), (value(o, i + 1, turn), 10.0 + i as f64)] };
    // One too few or too many is refused, wherever it is noticed.
    for (ds, dc) in [(ns - 256, 0), (1, 0), (0, 1), (0, nc - 256)] {
        let s: Vec<Val> = (0..ns - ds).map(|i| value(9, i, 0)).collect();
        let k: Vec<(usize, Frames)> = (0..nc - dc).map(|_| (3, Vec::new())).collect();
        ensure_for!(C9, create(&mut b, &c, &s, &k).is_err(), "accepted-wrongly", "an object with {} of {ns} states and {} of {nc} channels was created", s.len(), k.len());
        ensure_for!(C9, b.iter_objects().count() == 0, "failure-had-effect", "a refused creation left an object behind");
    }
    let mut made: Vec<(ObjectHandle, Vec<DynStateHandle>, Vec<DynChannelHandle>)> = Vec::new();
    for o in 0..objs {
        let s: Vec<Val> = (0..ns).map(|i| value(o, i, 0)).collect();
        let k: Vec<(usize, Frames)> = (0..nc).map(|i| (3, reel(o, i, 0))).collect();
        let h = create(&mut b, &c, &s, &k).unwrap_or_else(|m| broken(C9, "creation-refused", &m));
        let (hs, hc) = bind_all(&b, &c, h).unwrap_or_else(|m| broken(&["C11", "C09"], "binding-fails", &m));
        made.push((h, hs, hc));
    }
    let mut turn = vec![(vec![0u64; ns], vec![0u64; nc]); objs];
    let names = &["C11"];
    let check = |b: &Baseline, turn: &Vec<(Vec<u64>, Vec<u64>)>, made: &Vec<(ObjectHandle, Vec<DynStateHandle>, Vec<DynChannelHandle>)>, what: &str| {
        for (o, (h, hs, hc)) in made.iter().enumerate() {
            let mut distinct = HashSet::new();
            for i in 0..ns {
                let got = read_state(b, hs[i], 0).unwrap_or_else(|m| broken(&["C08", "C09"], "value-gone", &m));
                let want = value(o, i, turn[o].0[i]);
                ensure_for!(&["C08", "C09", "C11"], got.same(&want), "wrong-value", "{what}: state {i} of object {o} is {} instead of {}", show(&got), show(&want));
                ensure_for!(names, distinct.insert(raw_state(hs[i])), "same-property", "two identifiers denote the same state of object {o}");
            }
            distinct.clear();
            for i in 0..nc {
                let got = read_channel(b, hc[i], 0).unwrap_or_else(|m| broken(&["C08", "C09"], "value-gone", &m));
                let want = reel(o, i, turn[o].1[i]);
                let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0.same(&b.0) && a.1 == b.1);
                ensure_for!(&["C08", "C09", "C11", "C12"], same, "wrong-value", "{what}: channel {i} of object {o} differs");
                ensure_for!(names, distinct.insert(raw_channel(hc[i])), "same-property", "two identifiers denote the same channel of object {o}");
            }
            // All ways of naming agree.
            let by_iter: Vec<DynStateId> = c.state_iter().collect();
            ensure_for!(names, by_iter.len() == ns && c.state_iter().count() == ns, "iteration-wrong", "iterating gives {} of {ns} states", by_iter.len());
            ensure_for!(names, c.state_id(ns).is_none() && c.state_id(ns + 255).is_none() && c.state_iter().nth(ns).is_none(), "past-the-end", "there is an identifier past the last state");
            for i in (0..ns).step_by(7).chain([254, 255, 256, 257, ns - 1]) {
                for id in [c.state_iter().skip(i - i % 5).nth(i % 5), c.state_iter().nth(i), c.state_iter().skip(i).next(), c.state_id(i)] {
                    let hh = id.and_then(|id| bind_state_id(b, &id, *h).ok());
                    ensure_for!(names, hh.map(raw_state) == Some(raw_state(hs[i])), "names-differ", "the ways of naming state {i} of {ns} disagree");
                }
            }
            let by_iter: Vec<_> = c.chan_iter().collect();
            ensure_for!(names, by_iter.len() == nc, "iteration-wrong", "iterating gives {} of {nc} channels", by_iter.len());
            ensure_for!(names, c.chan_id(nc).is_none() && c.chan_iter().nth(nc).is_none(), "past-the-end", "there is an identifier past the last channel");
            for i in (0..nc).step_by(7).chain([254, 255, 256, 257, nc - 1]) {
                for id in [c.chan_iter().skip(i - i % 5).nth(i % 5), c.chan_iter().nth(i), c.chan_iter().skip(i).next(), c.chan_id(i)] {
                    let hh = id.and_then(|id| bind_channel_id(b, &id, *h).ok());
                    ensure_for!(names, hh.map(raw_channel) == Some(raw_channel(hc[i])), "names-differ", "the ways of naming channel {i} of {nc} disagree");
                }
            }
        }
    };
    check(&b, &turn, &made, "after creating");
    for _ in 0..range(1, 6) {
        let (o, t) = (choose(objs), 1 + choose(1000) as u64);
        if chance(1, 2) {
            let i = choose(ns);
            turn[o].0[i] = t;
            let _ = write_state(&mut b, made[o].1[i], &value(o, i, t), choose(STATE_WRITE_PATHS)).map_err(|m| broken(&["C08"], "value-gone", &m));
        } else {
            let i = choose(nc);
            turn[o].1[i] = t;
            let f = reel(o, i, t);
            for (k, (v, at)) in f.into_iter().enumerate() {
                let _ = edit_channel(&mut b, made[o].2[i], &Edit::Replace(k, v, at), choose(CHANNEL_PATHS)).map_err(|m| broken(&["C08", "C12"], "value-gone", &m));
            }
        }
    }
    check(&b, &turn, &made, "after writing");
    // Removed with all of them.
    let (h, hs, hc) = made.remove(0);
    turn.remove(0);
    if let Err(m) = b.object_remove::<Wide>(h) {
        broken(C9, "removal-refused", &format!("removing an object of {ns} states failed: {m}"));
    }
    for (i, h) in hs.iter().enumerate() {
        ensure_for!(&["C07", "C09"], read_state(&b, *h, 0).is_err(), "property-left", "state {i} of a removed object is still there");
    }
    for (i, h) in hc.iter().enumerate() {
        ensure_for!(&["C07", "C09"], read_channel(&b, *h, 0).is_err(), "property-left", "channel {i} of a removed object is still there");
    }
    probe("contract of hundreds of properties");
    nontrivial();
}
