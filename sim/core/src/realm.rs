//! A realm served to clients over a simulated network that delays,
//! reorders, duplicates and drops messages, so that clients act on handles
//! that have gone stale. After every operation the server is compared with a
//! reference model. Decides C07 to C12.
use crate::contracts::*;
use crate::val::*;
use crate::world::*;
use crate::all_contracts;
use dsim::*;
use std::collections::{BTreeMap, BTreeSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{ChannelsIter, DynChannelHandle, DynChannelId, IChannels};
use tp_client::contract::properties::states::{DynStateHandle, DynStateId, IStates, StatesIter};
use tp_client::contract::{Contract, ContractDataHandle};
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{Ticks, TimeScale};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Emph {
    Stale,
    Writes,
    Objects,
    Contracts,
    Naming,
    Channels,
}

macro_rules! define_any {
    (; $($c:ident)*) => {
        /// An instance of some contract.
        enum Any { $($c($c)),* }
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        enum Kind { $($c),* }
        const KINDS: &[Kind] = &[$(Kind::$c),*];
        /// `$e` with `$x` bound to the instance and `$t` to its type.
        macro_rules! with_any {
            ($a:expr, $x:ident, $t:ident => $e:expr) => {
                match $a { $(Any::$c($x) => { #[allow(dead_code)] type $t = $c; $e })* }
            };
        }
        macro_rules! with_kind {
            ($k:expr, $t:ident => $e:expr) => {
                match $k { $(Kind::$c => { type $t = $c; $e })* }
            };
        }
        fn any_register(b: &mut Baseline, k: Kind) -> Result<Any, String> {
            match k {
                $(Kind::$c => b.register_contract::<$c>().map(Any::$c).map_err(|e| e.to_string()),)*
            }
        }
    };
}
all_contracts!(define_any);

impl Kind {
    fn states(self) -> Vec<usize> {
        with_kind!(self, C => C::state_types())
    }
    fn channels(self) -> Vec<usize> {
        with_kind!(self, C => C::channel_types())
    }
    fn identity(self) -> (&'static str, (u16, u16, u16)) {
        with_kind!(self, C => (C::ID.name, C::ID.version))
    }
}
impl Any {
    fn handle(&self) -> ContractDataHandle {
        with_any!(self, c, C => Contract::handle(c))
    }
    fn state_id(&self, i: usize) -> Option<DynStateId> {
        with_any!(self, c, C => c.state_id(i))
    }
    fn chan_id(&self, i: usize) -> Option<DynChannelId> {
        with_any!(self, c, C => c.chan_id(i))
    }
}

/// A registration of a contract, live or past.
struct Reg {
    kind: Kind,
    any: Any,
    live: bool,
}
struct Obj {
    h: ObjectHandle,
    reg: usize,
    live: bool,
    states: Vec<(DynStateHandle, Val)>,
    chans: Vec<(DynChannelHandle, Frames)>,
    offset: i32,
    scale: i32,
}
#[derive(Default)]
struct Copy_ {
    regs: Vec<Reg>,
    objs: Vec<Obj>,
    con_seen: BTreeSet<(usize, u64)>,
    obj_seen: BTreeSet<(usize, u64)>,
    state_seen: BTreeSet<(usize, usize, u64)>,
    chan_seen: BTreeSet<(usize, usize, u64)>,
    pool: Pool,
}
impl Copy_ {
    fn live_objs(&self) -> Vec<usize> {
        (0..self.objs.len()).filter(|k| self.objs[*k].live).collect()
    }
    fn live_regs(&self) -> Vec<usize> {
        (0..self.regs.len()).filter(|k| self.regs[*k].live).collect()
    }
}
struct World {
    realm: Realm,
    copies: [Copy_; 2],
    emph: Emph,
}
fn kind_of(c: usize) -> BaselineKind {
    if c == 0 {
        BaselineKind::Fork
    } else {
        BaselineKind::Main
    }
}
fn name_of(c: usize) -> &'static str {
    ["fork", "main"][c]
}

/// What a client asks for; handles are those it knew when it asked.
#[derive(Clone, Debug)]
enum Ask {
    Register(Kind),
    /// kind, registration whose handle is used
    Unregister(Kind, usize),
    /// registration, values, channels
    Create(usize, Vec<Val>, Vec<(usize, Frames)>),
    /// With a contract that was registered in the other copy.
    CreateMistaken(usize, Vec<Val>, Vec<(usize, Frames)>),
    /// kind, object
    Remove(Kind, usize),
    WriteState(usize, usize, Val, usize),
    EditChannel(usize, usize, u32, usize),
    Warp(usize, i32, i32),
    Read(usize),
    Bind(usize, usize),
    Names(usize),
}
struct Msg {
    copy: usize,
    ask: Ask,
    /// how many parts are still to come, for streamed keyframes
    id: u64,
}

pub fn stale() {
    run(Emph::Stale)
}
pub fn writes() {
    run(Emph::Writes)
}
pub fn objects() {
    run(Emph::Objects)
}
pub fn registrations() {
    run(Emph::Contracts)
}
pub fn naming() {
    run(Emph::Naming)
}
pub fn keyframes() {
    run(Emph::Channels)
}

fn run(emph: Emph) {
    let mut w = World { realm: Realm::new(RealmID::new("served".into())), copies: Default::default(), emph };
    set_config(&Config { step_ns: 0, ..Config::default() });
    // The network of this run.
    let delay = [2, 30, 300][choose(3)] as u64;
    let (dup, drop_) = (choose(3) * 6, choose(3) * 6);
    let clients = range(1, 3);
    let asks = match choose(6) {
        0 => range(60, 160),
        1 => range(1, 12),
        _ => range(8, 60),
    };
    let busy = [0, 1, 2][choose(3)];
    summary(&format!("{clients} clients, {asks} requests, delays up to {delay} us, {dup}% duplicated, {drop_}% dropped"));
    // Some things exist before the clients connect.
    for _ in 0..range(0, 3) {
        let k = pick(KINDS);
        let c = choose(2);
        w.do_register(c, k);
        for _ in 0..range(0, 2) {
            if let Some(r) = w.copies[c].live_regs().last().copied() {
                let (s, f) = w.gen_create(c, r, false);
                w.do_create(c, r, s, f);
            }
        }
    }
    let mut queue: BTreeMap<(u64, u64), Msg> = BTreeMap::new();
    let mut seq = 0u64;
    let mut sent = 0;
    let mut t = 0u64;
    while sent < asks || !queue.is_empty() {
        // A client sends, or the network delivers.
        let send = sent < asks && (queue.is_empty() || queue.len() < 2 + busy * 6 && chance(1, 2));
        if send {
            let c = if chance(1, 4) { 1 } else { 0 };
            let ask = w.gen_ask(c);
            sent += 1;
            t += choose(4) as u64;
            if choose(100) >= 100 - drop_ {
                fault("message_dropped");
                ev!("client {}: {} {ask:?} is lost", choose(clients), name_of(c));
                continue;
            }
            let mut deliver = |queue: &mut BTreeMap<(u64, u64), Msg>, ask: Ask| {
                seq += 1;
                let d = choose(delay as usize) as u64;
                if d * 4 > delay * 3 {
                    fault("message_delayed");
                }
                queue.insert((t + d, seq), Msg { copy: c, ask, id: seq });
            };
            deliver(&mut queue, ask.clone());
            if choose(100) >= 100 - dup {
                fault("message_duplicated");
                deliver(&mut queue, ask);
            }
        } else {
            let k = *queue.keys().next().expect("message");
            let m = queue.remove(&k).expect("message");
            t = t.max(k.0);
            if queue.keys().any(|o| o.1 < m.id) {
                fault("message_reordered");
            }
            advance(1000);
            w.serve(m.copy, m.ask);
        }
    }
    for c in 0..2 {
        w.audit(c, "at the end", &[]);
    }
    // Everything is taken away again; nothing may go wrong.
    if chance(1, 3) {
        for c in 0..2 {
            for r in w.copies[c].live_regs() {
                let k = w.copies[c].regs[r].kind;
                w.do_unregister(c, k, r);
            }
            w.audit(c, "after unregistering everything", &["C10", "C07"]);
        }
    }
}

impl World {
    fn b(&self, c: usize) -> &Baseline {
        self.realm.baseline(kind_of(c))
    }
    fn bm(&mut self, c: usize) -> &mut Baseline {
        self.realm.baseline_mut(kind_of(c))
    }

    // ---- generation ----

    /// An object a client knows: mostly one that was live lately.
    fn known_obj(&self, c: usize) -> Option<usize> {
        let live = self.copies[c].live_objs();
        let all = self.copies[c].objs.len();
        if all == 0 {
            return None;
        }
        let stale = if self.emph == Emph::Stale { 3 } else { 7 };
        if live.is_empty() || chance(1, stale) {
            Some(choose(all))
        } else {
            Some(pick(&live))
        }
    }
    fn known_reg(&self, c: usize) -> Option<usize> {
        let live = self.copies[c].live_regs();
        let all = self.copies[c].regs.len();
        if all == 0 {
            return None;
        }
        if live.is_empty() || chance(1, 6) {
            Some(choose(all))
        } else {
            Some(pick(&live))
        }
    }
    fn gen_create(&self, c: usize, r: usize, allow_bad: bool) -> (Vec<Val>, Vec<(usize, Frames)>) {
        let cp = &self.copies[c];
        let kind = cp.regs[r].kind;
        let mut st = kind.states();
        let mut ch = kind.channels();
        if allow_bad && chance(1, 5) {
            let v = if chance(1, 2) { &mut st } else { &mut ch };
            match choose(4) {
                0 => {
                    v.pop();
                }
                1 => {
                    for _ in 0..[1, 1, 2, 40][choose(4)] {
                        let t = if v.is_empty() || chance(1, 2) { choose(28) } else { v[choose(v.len())] };
                        v.push(t);
                    }
                }
                2 => {
                    if !v.is_empty() {
                        let i = choose(v.len());
                        v[i] = (v[i] + [14, 1, 27, 13][choose(4)]) % 28;
                    }
                }
                _ => v.clear(),
            }
        }
        let s = st.iter().map(|t| Val::gen(*t, &cp.pool)).collect();
        let f = ch.iter().map(|t| (*t, gen_stream(*t, &cp.pool, self.emph == Emph::Channels))).collect();
        (s, f)
    }
    fn gen_kind(&self, c: usize, right: Kind) -> Kind {
        if chance(1, 8) {
            let live = self.copies[c].live_regs();
            if !live.is_empty() && chance(1, 2) {
                self.copies[c].regs[pick(&live)].kind
            } else {
                pick(KINDS)
            }
        } else {
            right
        }
    }
    fn gen_ask(&self, c: usize) -> Ask {
        let cp = &self.copies[c];
        let e = self.emph;
        let ws = [
            3 + 5 * (e == Emph::Contracts) as usize,                           // register
            1 + 3 * (e == Emph::Contracts) as usize,                           // unregister
            5 + 4 * matches!(e, Emph::Objects | Emph::Stale | Emph::Contracts) as usize, // create
            2 + 5 * matches!(e, Emph::Objects | Emph::Stale | Emph::Contracts) as usize, // remove
            4 + 8 * (e == Emph::Writes) as usize,
            2 + 9 * (e == Emph::Channels) as usize + 3 * (e == Emph::Writes) as usize,
            1 + 2 * (e == Emph::Writes) as usize,
            2 + 5 * (e == Emph::Stale) as usize,
            1 + 4 * (e == Emph::Stale) as usize + 4 * (e == Emph::Naming) as usize,
            1 + 6 * (e == Emph::Naming) as usize,
        ];
        loop {
            let a = match weighted(&ws) {
                0 => Some(Ask::Register(pick(KINDS))),
                1 => self.known_reg(c).map(|r| Ask::Unregister(self.gen_kind(c, cp.regs[r].kind), r)),
                2 if choose(12) == 11 && !self.copies[1 - c].regs.is_empty() => {
                    let r = choose(self.copies[1 - c].regs.len());
                    let (s, f) = self.gen_create(1 - c, r, false);
                    Some(Ask::CreateMistaken(r, s, f))
                }
                2 => self.known_reg(c).map(|r| {
                    let (s, f) = self.gen_create(c, r, true);
                    Ask::Create(r, s, f)
                }),
                3 => self.known_obj(c).map(|o| Ask::Remove(self.gen_kind(c, cp.regs[cp.objs[o].reg].kind), o)),
                4 => self.known_obj(c).and_then(|o| {
                    let n = cp.objs[o].states.len();
                    if n == 0 {
                        return None;
                    }
                    let i = choose(n);
                    let ty = cp.objs[o].states[i].1.ty();
                    let v = if chance(1, 4) { cp.objs[o].states[i].1.near(&cp.pool) } else { Val::gen(ty, &cp.pool) };
                    Some(Ask::WriteState(o, i, v, choose(STATE_WRITE_PATHS)))
                }),
                5 => self.known_obj(c).and_then(|o| {
                    let n = cp.objs[o].chans.len();
                    if n == 0 {
                        return None;
                    }
                    Some(Ask::EditChannel(o, choose(n), choose(1 << 16) as u32, choose(CHANNEL_PATHS)))
                }),
                6 => self.known_obj(c).map(|o| Ask::Warp(o, bits64() as i32, bits64() as i32)),
                7 => self.known_obj(c).map(Ask::Read),
                8 => match (self.known_reg(c), self.known_obj(c)) {
                    (Some(r), Some(o)) => Some(Ask::Bind(if chance(1, 2) { cp.objs[o].reg } else { r }, o)),
                    _ => None,
                },
                _ => self.known_reg(c).map(Ask::Names),
            };
            if let Some(a) = a {
                return a;
            }
            // Nothing exists yet.
            return Ask::Register(pick(KINDS));
        }
    }

    // ---- the server ----

    fn serve(&mut self, c: usize, ask: Ask) {
        let t = format!("{ask:?}");
        ev!("server: {} {}", name_of(c), t.chars().take(160).collect::<String>());
        match ask {
            Ask::Register(k) => self.do_register(c, k),
            Ask::Unregister(k, r) => self.do_unregister(c, k, r),
            Ask::Create(r, s, f) => self.do_create(c, r, s, f),
            Ask::CreateMistaken(r, s, f) => self.do_create_mistaken(c, r, s, f),
            Ask::Remove(k, o) => self.do_remove(c, k, o),
            Ask::WriteState(o, i, v, path) => self.do_write(c, o, i, v, path),
            Ask::EditChannel(o, i, what, path) => self.do_edit(c, o, i, what, path),
            Ask::Warp(o, off, sc) => self.do_warp(c, o, off, sc),
            Ask::Read(o) => self.do_read(c, o),
            Ask::Bind(r, o) => self.do_bind(c, r, o),
            Ask::Names(r) => self.do_names(c, r),
        }
    }

    fn do_register(&mut self, c: usize, k: Kind) {
        let taken = self.copies[c].regs.iter().any(|r| r.live && r.kind.identity() == k.identity());
        let p = &["C10"];
        let r = match catching(|| any_register(self.bm(c), k)) {
            Ok(r) => r,
            Err(m) => broken(p, "register-panics", &format!("registering {k:?} panicked: {m}")),
        };
        match (r, taken) {
            (Ok(any), false) => {
                let h = any.handle();
                ensure_for!(
                    &["C07", "C10"],
                    self.copies[c].con_seen.insert(raw_con(h)),
                    "handle-reused",
                    "the handle of a new registration of {k:?} was used before"
                );
                self.copies[c].pool.cons.push(h);
                self.copies[c].regs.push(Reg { kind: k, any, live: true });
                let again = self.copies[c].regs.iter().filter(|r| r.kind == k).count() > 1;
                if again {
                    probe("contract registered again");
                }
                self.audit(c, "after registering a contract", p);
                let r = self.copies[c].regs.len() - 1;
                self.check_names(c, r);
            }
            (Err(_), true) => {
                probe("second registration refused");
                nontrivial();
                self.audit(c, "after a refused registration", p);
            }
            (Ok(_), true) => broken(p, "registered-twice", &format!("{k:?} was registered although it already was")),
            (Err(e), false) => broken(p, "register-fails", &format!("registering {k:?} failed: {e}")),
        }
    }

    fn do_unregister(&mut self, c: usize, k: Kind, r: usize) {
        let p = &["C10"];
        let reg = &self.copies[c].regs[r];
        let good = reg.live && reg.kind.identity() == k.identity();
        let h = reg.any.handle();
        let res = catching(|| with_kind!(k, C => self.bm(c).unregister_contract::<C>(h)));
        let res = match res {
            Ok(r) => r,
            Err(m) => broken(p, "unregister-panics", &format!("unregistering {k:?} panicked: {m}")),
        };
        match (res, good) {
            (Ok(()), true) => {
                self.copies[c].regs[r].live = false;
                let mut n = 0;
                for o in self.copies[c].objs.iter_mut().filter(|o| o.reg == r && o.live) {
                    o.live = false;
                    n += 1;
                }
                if n > 0 {
                    probe("contract unregistered with objects");
                    nontrivial();
                }
                self.audit(c, "after unregistering a contract", p);
            }
            (Err(_), false) => {
                probe("unregistering refused");
                self.audit(c, "after a refused unregistering", p);
            }
            (Ok(()), false) => broken(&["C10", "C07"], "unregistered-wrongly", &format!("unregistering {k:?} with handle {r} succeeded although it must fail")),
            (Err(e), true) => broken(p, "unregister-fails", &format!("unregistering {k:?} failed: {e}")),
        }
    }

    /// A client uses what was registered in the other copy. Here its handle may
    /// denote nothing, the same contract or an entirely different one.
    fn do_create_mistaken(&mut self, c: usize, r: usize, s: Vec<Val>, f: Vec<(usize, Frames)>) {
        let p = &["C09"];
        let theirs = &self.copies[1 - c].regs[r];
        let (kind, raw) = (theirs.kind, raw_con(theirs.any.handle()));
        let here = self.copies[c].regs.iter().position(|x| x.live && raw_con(x.any.handle()) == raw);
        if let Some(h) = here {
            if self.copies[c].regs[h].kind == kind {
                return self.do_create(c, h, s, f);
            }
        }
        let World { realm, copies, .. } = self;
        let b = realm.baseline_mut(kind_of(c));
        match catching(|| with_any!(&copies[1 - c].regs[r].any, x, C => create(b, x, &s, &f))) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => broken(p, "created-wrongly", &format!("a {kind:?} was created with the handle of {:?}", here.map(|h| self.copies[c].regs[h].kind))),
            Err(m) => broken(p, "create-panics", &format!("creating a {kind:?} with a contract of the other copy panicked: {m}")),
        }
        probe(if here.is_some() { "creation with the handle of another contract refused" } else { "creation with a contract of the other copy refused" });
        nontrivial();
        self.audit(c, "after a creation with a mistaken contract", p);
    }
    fn do_create(&mut self, c: usize, r: usize, s: Vec<Val>, f: Vec<(usize, Frames)>) {
        let p = &["C09"];
        let reg = &self.copies[c].regs[r];
        let kind = reg.kind;
        let types_ok = s.iter().map(|v| v.ty()).collect::<Vec<_>>() == kind.states()
            && f.iter().map(|x| x.0).collect::<Vec<_>>() == kind.channels();
        let good = reg.live && types_ok;
        let World { realm, copies, .. } = self;
        let b = realm.baseline_mut(kind_of(c));
        let res = catching(|| with_any!(&copies[c].regs[r].any, x, C => create(b, x, &s, &f)));
        let res = match res {
            Ok(r) => r,
            Err(m) => broken(p, "create-panics", &format!("creating a {kind:?} panicked: {m}")),
        };
        let h = match (res, good) {
            (Ok(h), true) => h,
            (Err(_), false) => {
                probe(if types_ok { "creation with a stale contract refused" } else { "creation with wrong properties refused" });
                nontrivial();
                return self.audit(c, "after a refused creation", p);
            }
            (Ok(_), false) => broken(&["C09", "C07"], "created-wrongly", &format!("a {kind:?} was created although that must fail")),
            (Err(e), true) => broken(p, "create-fails", &format!("creating a {kind:?} failed: {e}")),
        };
        ensure_for!(
            &["C07", "C09"],
            self.copies[c].obj_seen.insert(raw_obj(h)),
            "handle-reused",
            "the handle of a new object was used before"
        );
        let bound = with_any!(&self.copies[c].regs[r].any, x, C => bind_all(self.b(c), x, h));
        let (hs, hc) = match bound {
            Ok(x) => x,
            Err(e) => broken(&["C09", "C11", "C07"], "bind-fails", &format!("binding a new {kind:?} failed: {e}")),
        };
        for h in &hs {
            let (i, g) = raw_state(*h);
            let ty = state_handle_type(*h);
            ensure_for!(
                &["C07", "C11", "C09"],
                self.copies[c].state_seen.insert((ty, i, g)),
                "handle-reused",
                "a state of a new object has a handle that was used before"
            );
        }
        for h in &hc {
            let (i, g) = raw_channel(*h);
            let ty = channel_handle_type(*h);
            ensure_for!(
                &["C07", "C11", "C09"],
                self.copies[c].chan_seen.insert((ty, i, g)),
                "handle-reused",
                "a channel of a new object has a handle that was used before"
            );
        }
        // Channels: the content given, in order of time.
        let mut chans = Vec::new();
        for (k, (h, (_, want))) in hc.into_iter().zip(f).enumerate() {
            let got = read_channel(self.b(c), h, choose(CHANNEL_PATHS))
                .unwrap_or_else(|e| broken(&["C09", "C12", "C07"], "channel-gone", &format!("channel {k} of a new {kind:?} can't be read: {e}")));
            ensure_for!(
                &["C12", "C09"],
                same_frames_unordered(&got, &want),
                "keyframes-changed",
                "channel {k} of a new {kind:?} has {} keyframes that differ from the {} given: {:?} instead of {:?}",
                got.len(),
                want.len(),
                brief(&got),
                brief(&want)
            );
            ensure_for!(
                &["C12"],
                in_order(&got),
                "keyframes-unordered",
                "the keyframes of channel {k} of a new {kind:?} aren't in order of time: {:?}",
                brief(&got)
            );
            if !in_order(&want) {
                probe("channel built from out-of-order keyframes");
                nontrivial();
            }
            chans.push((h, got));
        }
        let reused = self.copies[c].objs.iter().any(|o| !o.live);
        if reused {
            probe("object created after others were removed");
            if self.emph == Emph::Stale {
                nontrivial();
            }
        }
        let cp = &mut self.copies[c];
        cp.pool.objs.push(h);
        cp.objs.push(Obj { h, reg: r, live: true, states: hs.into_iter().zip(s).collect(), chans, offset: 0, scale: 1024 });
        self.audit(c, "after creating an object", &["C09", "C12"]);
    }

    fn do_remove(&mut self, c: usize, k: Kind, o: usize) {
        let p = &["C09"];
        let ob = &self.copies[c].objs[o];
        let good = ob.live && self.copies[c].regs[ob.reg].kind.identity() == k.identity();
        let h = ob.h;
        let res = match catching(|| with_kind!(k, C => self.bm(c).object_remove::<C>(h))) {
            Ok(r) => r,
            Err(m) => broken(p, "remove-panics", &format!("removing an object as {k:?} panicked: {m}")),
        };
        match (res, good) {
            (Ok(()), true) => {
                self.copies[c].objs[o].live = false;
                probe("object removed");
                if self.emph == Emph::Objects {
                    nontrivial();
                }
                self.audit(c, "after removing an object", p);
            }
            (Err(_), false) => {
                probe(if self.copies[c].objs[o].live { "removal through another contract refused" } else { "removal of a removed object refused" });
                self.audit(c, "after a refused removal", p);
            }
            (Ok(()), false) => broken(&["C09", "C07"], "removed-wrongly", &format!("removing object {o} as {k:?} succeeded although it must fail")),
            (Err(e), true) => broken(p, "remove-fails", &format!("removing object {o} as {k:?} failed: {e}")),
        }
    }

    fn do_write(&mut self, c: usize, o: usize, i: usize, v: Val, path: usize) {
        let live = self.copies[c].objs[o].live;
        let h = self.copies[c].objs[o].states[i].0;
        if choose(3) == 2 {
            // Access for writing that writes nothing.
            let path = choose(STATE_WRITE_PATHS);
            let want = &self.copies[c].objs[o].states[i].1.clone();
            match catching(|| touch_state(self.bm(c), h, path)) {
                Err(m) => broken(&["C08", "C07"], "write-panics", &format!("access to a state panicked: {m}")),
                Ok(Ok(got)) => {
                    ensure_for!(&["C07"], live, "stale-write", "a stale handle of object {o} gave access for writing");
                    ensure_for!(&["C08"], got.same(want), "wrong-value", "state {i} of object {o}, accessed for writing, is {got:?} instead of {want:?}");
                    self.audit(c, "after access that wrote nothing", &["C08"]);
                }
                Ok(Err(e)) => ensure_for!(&["C07", "C08"], !live, "live-refused", "access to state {i} of live object {o} failed: {e}"),
            }
        }
        if live {
            // What is read compares equal to what was written and to nothing else.
            let now = read_state(self.bm(c), h, choose(STATE_PATHS)).unwrap_or_else(|m| broken(&["C08", "C07"], "live-refused", &m));
            let want = &self.copies[c].objs[o].states[i].1;
            for other in [want, &v, &want.near(&self.copies[c].pool)] {
                let equal = want.equal(other);
                let got = comparisons(&now.to_prop(), other);
                ensure_for!(&["C08"], got.iter().all(|e| *e == equal), "compares-wrongly", "{} and {} are equal: {equal}, but compare as {got:?}", show(want), show(other));
            }
        }
        let res = match (path, catching(|| write_state(self.bm(c), h, &v, path))) {
            (_, Ok(r)) => r,
            (_, Err(m)) => broken(&["C08", "C07"], "write-panics", &format!("writing a state panicked: {m}")),
        };
        match (res, live) {
            (Ok(wrote), true) => {
                if wrote {
                    self.copies[c].objs[o].states[i].1 = v;
                    if self.emph == Emph::Writes {
                        nontrivial();
                    }
                }
                self.audit(c, "after writing a state", &["C08"]);
            }
            (Err(_), false) => {
                probe("write through a stale handle refused");
                if self.emph == Emph::Stale {
                    nontrivial();
                }
                self.audit(c, "after a refused write", &["C07", "C08"]);
            }
            (Ok(_), false) => broken(&["C07"], "stale-write", &format!("a write through a stale handle of object {o} succeeded")),
            (Err(e), true) => broken(&["C07", "C08"], "live-refused", &format!("writing state {i} of live object {o} failed: {e}")),
        }
    }

    fn do_edit(&mut self, c: usize, o: usize, i: usize, what: u32, path: usize) {
        let ob = &self.copies[c].objs[o];
        let live = ob.live;
        let (h, frames) = &ob.chans[i];
        let h = *h;
        let ty = channel_handle_type(h);
        let n = if live { frames.len() } else { 0 };
        let mut r = what as usize;
        let mut take = |m: usize| {
            let x = r % m;
            r /= m;
            x
        };
        let mk = |p: &Pool| (Val::gen(ty, p), gen_time());
        let pool = &self.copies[c].pool;
        let e = match take(6) {
            1 if n > 0 => {
                let (v, t) = mk(pool);
                Edit::Replace(take(n), v, t)
            }
            2 if n > 0 => Edit::Remove(take(n)),
            3 if n > 1 => Edit::Swap(take(n), take(n)),
            4 => {
                let (v, t) = mk(pool);
                Edit::Insert(take(n + 1), v, t)
            }
            5 if take(4) == 0 => Edit::Clear,
            _ => {
                let (v, t) = mk(pool);
                Edit::Push(v, t)
            }
        };
        let res = match catching(|| edit_channel(self.bm(c), h, &e, path)) {
            Ok(r) => r,
            Err(m) => broken(&["C12", "C08", "C07"], "edit-panics", &format!("editing a channel panicked: {m}")),
        };
        match (res, live) {
            (Ok(()), true) => {
                edit_model(&mut self.copies[c].objs[o].chans[i].1, &e);
                probe("channel edited");
                if matches!(self.emph, Emph::Writes | Emph::Channels) {
                    nontrivial();
                }
                self.audit(c, "after editing a channel", &["C12", "C08"]);
            }
            (Err(_), false) => {
                probe("edit through a stale handle refused");
                self.audit(c, "after a refused edit", &["C07", "C12"]);
            }
            (Ok(()), false) => broken(&["C07"], "stale-write", &format!("an edit through a stale channel handle of object {o} succeeded")),
            (Err(e), true) => broken(&["C07", "C12", "C08"], "live-refused", &format!("editing channel {i} of live object {o} failed: {e}")),
        }
    }

    fn do_warp(&mut self, c: usize, o: usize, off: i32, sc: i32) {
        let live = self.copies[c].objs[o].live;
        let h = self.copies[c].objs[o].h;
        let by_index = choose(2) == 1;
        let b = self.bm(c);
        let res = if by_index {
            catching(|| {
                let w = b[h].time_warp_mut();
                w.offset = Ticks::new(off);
                w.scale = TimeScale::from(sc);
            })
        } else {
            b.object_mut(h)
                .map(|x| {
                    let w = x.time_warp_mut();
                    w.offset = Ticks::new(off);
                    w.scale = TimeScale::from(sc);
                })
                .map_err(|e| e.to_string())
        };
        match (res, live) {
            (Ok(()), true) => {
                let x = &mut self.copies[c].objs[o];
                x.offset = off;
                x.scale = sc;
                self.audit(c, "after setting a time warp", &["C08"]);
            }
            (Err(_), false) => probe("stale object handle refused"),
            (Ok(()), false) => broken(&["C07"], "stale-write", &format!("the time warp of removed object {o} could be set")),
            (Err(e), true) => broken(&["C07", "C08"], "live-refused", &format!("live object {o} can't be reached: {e}")),
        }
    }

    /// Everything known about one object, through every path.
    fn do_read(&mut self, c: usize, o: usize) {
        let ob = &self.copies[c].objs[o];
        let b = self.b(c);
        let reg = &self.copies[c].regs[ob.reg];
        let by_handle = b.object(ob.h).map(|x| x.contract());
        let by_index = catching(|| b[ob.h].contract());
        if !ob.live {
            let p = &["C07"];
            ensure_for!(p, by_handle.is_err() && by_index.is_err(), "stale-read", "removed object {o} can still be reached");
            for (i, (h, _)) in ob.states.iter().enumerate() {
                for path in 0..STATE_PATHS {
                    if let Ok(v) = read_state(b, *h, path) {
                        broken(p, "stale-read", &format!("state {i} of removed object {o} still reads {} (path {path})", show(&v)));
                    }
                }
                let id = reg.any.state_id(i).expect("id");
                if let Ok(v) = read_by_id(b, &id, ob.h) {
                    broken(p, "stale-read", &format!("state {i} of removed object {o} still reads {} by id", show(&v)));
                }
                if let Some(Ok(_)) = object_state(b, &id, ob.h) {
                    broken(p, "stale-read", &format!("removed object {o} still gives handles"));
                }
            }
            for (i, (h, _)) in ob.chans.iter().enumerate() {
                for path in 0..CHANNEL_PATHS {
                    if read_channel(b, *h, path).is_ok() {
                        broken(p, "stale-read", &format!("channel {i} of removed object {o} can still be read (path {path})"));
                    }
                }
                let id = reg.any.chan_id(i).expect("id");
                if read_channel_by_id(b, &id, ob.h).is_ok() || matches!(object_channel(b, &id, ob.h), Some(Ok(_))) {
                    broken(p, "stale-read", &format!("channel {i} of removed object {o} can still be reached by id"));
                }
            }
            probe("stale handles tried on every path");
            if self.emph == Emph::Stale {
                nontrivial();
            }
            return;
        }
        let p = &["C08", "C07", "C11"];
        let hc = reg.any.handle();
        ensure_for!(
            p,
            matches!(by_handle, Ok(h) if raw_con(h) == raw_con(hc)) && matches!(by_index, Ok(h) if raw_con(h) == raw_con(hc)),
            "wrong-contract",
            "live object {o} can't be reached or has another contract"
        );
        for (i, (h, v)) in ob.states.iter().enumerate() {
            for path in 0..STATE_PATHS {
                match read_state(b, *h, path) {
                    Ok(g) => ensure_for!(p, g.same(v), "wrong-value", "state {i} of object {o} reads {} instead of {} (path {path})", show(&g), show(v)),
                    Err(e) => broken(p, "live-refused", &format!("state {i} of live object {o} can't be read (path {path}): {e}")),
                }
            }
            let id = reg.any.state_id(i).expect("id");
            match read_by_id(b, &id, ob.h) {
                Ok(g) => ensure_for!(p, g.same(v), "wrong-value", "state {i} of object {o} reads {} instead of {} by id", show(&g), show(v)),
                Err(e) => broken(p, "live-refused", &format!("state {i} of live object {o} can't be read by id: {e}")),
            }
            match object_state(b, &id, ob.h) {
                Some(Ok(g)) => ensure_for!(p, g == *h, "wrong-handle", "state {i} of object {o} gets two different handles"),
                Some(Err(e)) => broken(p, "live-refused", &format!("live object {o} refuses its own id: {e}")),
                None => {}
            }
        }
        let p = &["C12", "C08", "C07", "C11"];
        for (i, (h, f)) in ob.chans.iter().enumerate() {
            for path in 0..CHANNEL_PATHS {
                match read_channel(b, *h, path) {
                    Ok(g) => ensure_for!(p, same_frames(&g, f), "wrong-keyframes", "channel {i} of object {o} reads {:?} instead of {:?} (path {path})", brief(&g), brief(f)),
                    Err(e) => broken(p, "live-refused", &format!("channel {i} of live object {o} can't be read (path {path}): {e}")),
                }
            }
            let id = reg.any.chan_id(i).expect("id");
            match read_channel_by_id(b, &id, ob.h) {
                Ok(g) => ensure_for!(p, same_frames(&g, f), "wrong-keyframes", "channel {i} of object {o} reads {:?} instead of {:?} by id", brief(&g), brief(f)),
                Err(e) => broken(p, "live-refused", &format!("channel {i} of live object {o} can't be read by id: {e}")),
            }
            if let Some(Ok(g)) = object_channel(b, &id, ob.h) {
                ensure_for!(p, raw_channel(g) == raw_channel(*h), "wrong-handle", "channel {i} of object {o} gets two different handles");
            }
        }
        probe("object read on every path");
    }

    /// Identifiers of registration `r` used on object `o`.
    fn do_bind(&mut self, c: usize, r: usize, o: usize) {
        let cp = &self.copies[c];
        let (reg, ob) = (&cp.regs[r], &cp.objs[o]);
        let b = self.b(c);
        let good = ob.live && ob.reg == r;
        let p: &[&str] = if ob.live { &["C11", "C07"] } else { &["C07"] };
        for i in 0..reg.kind.states().len() {
            let id = reg.any.state_id(i).expect("id");
            match (bind_state_id(b, &id, ob.h), good) {
                (Ok(h), true) => ensure_for!(&["C11", "C07"], h == ob.states[i].0, "wrong-handle", "state {i} of object {o} binds to another property than before"),
                (Err(_), false) => {}
                (Ok(_), false) => broken(p, "foreign-id-accepted", &format!("an id of registration {r} was accepted by object {o} of registration {}", ob.reg)),
                (Err(e), true) => broken(&["C11", "C07"], "live-refused", &format!("live object {o} refuses its own id: {e}")),
            }
            if let Some(Ok(_)) = object_state(b, &id, ob.h) {
                ensure_for!(p, good, "foreign-id-accepted", "an id of registration {r} was accepted by object {o}");
            }
        }
        for i in 0..reg.kind.channels().len() {
            let id = reg.any.chan_id(i).expect("id");
            match (bind_channel_id(b, &id, ob.h), good) {
                (Ok(h), true) => {
                    ensure_for!(&["C11", "C07"], raw_channel(h) == raw_channel(ob.chans[i].0), "wrong-handle", "channel {i} of object {o} binds to another property than before")
                }
                (Err(_), false) => {}
                (Ok(_), false) => broken(p, "foreign-id-accepted", &format!("an id of registration {r} was accepted by object {o} of registration {}", ob.reg)),
                (Err(e), true) => broken(&["C11", "C07"], "live-refused", &format!("live object {o} refuses its own id: {e}")),
            }
            if let Some(Ok(_)) = object_channel(b, &id, ob.h) {
                ensure_for!(p, good, "foreign-id-accepted", "an id of registration {r} was accepted by object {o}");
            }
        }
        if !good && ob.live {
            probe("ids of another registration refused");
            if matches!(self.emph, Emph::Naming) {
                nontrivial();
            }
        }
    }

    fn do_names(&mut self, c: usize, r: usize) {
        self.check_names(c, r);
        nontrivial();
    }
    fn check_names(&self, c: usize, r: usize) {
        let reg = &self.copies[c].regs[r];
        let sample = self.copies[c].objs.iter().find(|o| o.live && o.reg == r);
        with_any!(&reg.any, x, C => names(self.b(c), x, sample));
    }

    // ---- the audit ----

    /// Compares everything with the model. `props`: those that the operation
    /// just done is about.
    fn audit(&self, c: usize, what: &str, props: &'static [&'static str]) {
        // The other copy must not have noticed; look at it now and then.
        if self.copies[1 - c].objs.len() + self.copies[1 - c].regs.len() > 0 && chance(1, 4) {
            self.audit_one(1 - c, what, "the other copy: ", &["C08"], &["C08"], &["C08"]);
        }
        let with = |more: &[&'static str]| {
            let mut v: Vec<&'static str> = props.to_vec();
            v.extend(more);
            if props.is_empty() {
                v.clear();
            }
            v
        };
        let (a, b, d) = (with(&["C08"]), with(&["C09"]), with(&["C07"]));
        self.audit_one(c, what, "", &a, &b, &d);
    }
    fn audit_one(&self, c: usize, what: &str, pre: &str, values: &[&str], lists: &[&str], handles: &[&str]) {
        let cp = &self.copies[c];
        let b = self.b(c);
        // objects
        let mut seen: Vec<(usize, u64)> = b.iter_objects().map(|(h, _)| raw_obj(h)).collect();
        seen.sort();
        let mut want: Vec<(usize, u64)> = cp.objs.iter().filter(|o| o.live).map(|o| raw_obj(o.h)).collect();
        want.sort();
        ensure_for!(lists, seen == want, "wrong-objects", "{pre}{what}, enumeration gives {} objects instead of {} (or others)", seen.len(), want.len());
        // contracts
        for (r, reg) in cp.regs.iter().enumerate() {
            match (b.contract_data(reg.any.handle()), reg.live) {
                (Ok(d), true) => {
                    let id = d.id();
                    ensure_for!(lists, (id.name, id.version) == reg.kind.identity(), "wrong-contract", "{pre}{what}, registration {r} has another identity");
                    let mut has: Vec<(usize, u64)> = d.objects().iter().map(|h| raw_obj(*h)).collect();
                    has.sort();
                    let mut want: Vec<(usize, u64)> =
                        cp.objs.iter().filter(|o| o.live && o.reg == r).map(|o| raw_obj(o.h)).collect();
                    want.sort();
                    ensure_for!(
                        lists,
                        has == want,
                        "wrong-object-list",
                        "{pre}{what}, registration {r} lists {} objects instead of {} (or others)",
                        has.len(),
                        want.len()
                    );
                }
                (Err(_), false) => {}
                (Ok(_), false) => broken(handles_or(handles, "C07"), "stale-read", &format!("{pre}{what}, unregistered contract {r} can still be reached")),
                (Err(e), true) => broken(handles, "live-refused", &format!("{pre}{what}, live contract {r} can't be reached: {e}")),
            }
        }
        // properties
        for (o, ob) in cp.objs.iter().enumerate() {
            if !ob.live {
                // one path each; `do_read` tries them all
                let path = if ob.states.len() + ob.chans.len() < 8 { 0 } else { o % 2 };
                if b.object(ob.h).is_ok() {
                    broken(handles_or(handles, "C07"), "stale-read", &format!("{pre}{what}, removed object {o} can still be reached"));
                }
                for (i, (h, _)) in ob.states.iter().enumerate() {
                    if read_state_quick(b, *h, path) {
                        broken(handles_or(handles, "C07"), "stale-read", &format!("{pre}{what}, state {i} of removed object {o} can still be read"));
                    }
                }
                for (i, (h, _)) in ob.chans.iter().enumerate() {
                    if read_channel(b, *h, 0).is_ok() {
                        broken(handles_or(handles, "C07"), "stale-read", &format!("{pre}{what}, channel {i} of removed object {o} can still be read"));
                    }
                }
                continue;
            }
            match b.object(ob.h) {
                Ok(x) => {
                    let w = x.time_warp();
                    ensure_for!(
                        values,
                        w.offset.as_millis() == ob.offset && w.scale.numerator() == ob.scale,
                        "wrong-warp",
                        "{pre}{what}, object {o} has warp {w:?} instead of {}/{}",
                        ob.offset,
                        ob.scale
                    );
                    ensure_for!(
                        lists,
                        raw_con(x.contract()) == raw_con(cp.regs[ob.reg].any.handle()),
                        "wrong-contract",
                        "{pre}{what}, object {o} has another contract"
                    );
                }
                Err(e) => broken(handles, "live-refused", &format!("{pre}{what}, live object {o} can't be reached: {e}")),
            }
            for (i, (h, v)) in ob.states.iter().enumerate() {
                match read_state(b, *h, 0) {
                    Ok(g) => ensure_for!(values, g.same(v), "wrong-value", "{pre}{what}, state {i} of object {o} is {} instead of {}", show(&g), show(v)),
                    Err(e) => broken(handles, "live-refused", &format!("{pre}{what}, state {i} of live object {o} can't be read: {e}")),
                }
            }
            for (i, (h, f)) in ob.chans.iter().enumerate() {
                match read_channel(b, *h, 1) {
                    Ok(g) => ensure_for!(values, same_frames(&g, f), "wrong-keyframes", "{pre}{what}, channel {i} of object {o} holds {:?} instead of {:?}", brief(&g), brief(f)),
                    Err(e) => broken(handles, "live-refused", &format!("{pre}{what}, channel {i} of live object {o} can't be read: {e}")),
                }
            }
        }
    }
}
fn handles_or<'a>(h: &[&'a str], more: &'a str) -> &'a [&'a str] {
    let mut v = h.to_vec();
    if !v.is_empty() {
        v.push(more);
    }
    Box::leak(v.into_boxed_slice())
}
fn read_state_quick(b: &Baseline, h: DynStateHandle, path: usize) -> bool {
    read_state(b, h, if path == 0 { 0 } else { 4 }).is_ok()
}
fn brief(f: &Frames) -> Vec<(String, f64)> {
    f.iter().take(12).map(|(v, t)| (show(v).chars().take(30).collect(), *t)).collect()
}

/// Whether times don't decrease, apart from those that aren't numbers.
fn in_order(f: &Frames) -> bool {
    let t: Vec<f64> = f.iter().map(|x| x.1).filter(|t| !t.is_nan()).collect();
    t.windows(2).all(|x| x[0] <= x[1])
}
/// Keyframes as they arrive at the server: generated in order, each sent in
/// its own message, assembled in order of arrival without duplicates.
fn gen_stream(ty: usize, p: &Pool, many: bool) -> Frames {
    let n = if !many {
        [0, 1, 3][choose(3)]
    } else {
        match choose(12) {
            0 => 0,
            1 => 1,
            2..=6 => range(2, 9),
            7..=9 => range(10, 40),
            _ => range(41, 120),
        }
    };
    let regular = chance(1, 2);
    let mut t0 = 0.0;
    let frames: Vec<(Val, f64)> = (0..n)
        .map(|_| {
            let t = if regular {
                t0 += [0.25, 0.0, 1.0][choose(3)];
                t0
            } else {
                gen_time()
            };
            (Val::gen(ty, p), t)
        })
        .collect();
    // The network.
    let spread = [0, 3, 200][choose(3)];
    if spread == 0 {
        return frames;
    }
    let mut arrivals: Vec<(usize, usize)> = (0..n).map(|i| (i + choose(spread), i)).collect();
    if chance(1, 4) && n > 0 {
        fault("keyframe_duplicated");
        let i = choose(n);
        arrivals.push((i + choose(2 * spread), i));
    }
    arrivals.sort();
    let mut have = BTreeSet::new();
    let mut out = Vec::new();
    for (_, i) in arrivals {
        if have.insert(i) {
            out.push(frames[i].clone());
        }
    }
    if out.len() > 1 {
        fault("keyframes_reordered");
    }
    out
}

// ---- naming ----

fn names<C: SimContract>(b: &Baseline, c: &C, sample: Option<&Obj>) {
    let p = &["C11"];
    let me = c.handle();
    let what = C::NAME;
    // static descriptions
    let (st, ct) = (C::state_types(), C::channel_types());
    let es: Vec<usize> = C::States::enumerate_types().iter().map(|t| type_no(*t)).collect();
    let ec: Vec<usize> = C::Channels::enumerate_types().iter().map(|t| type_no(*t)).collect();
    ensure_for!(p, es == st && ec == ct, "wrong-types", "the types of {what} are {es:?} and {ec:?} instead of {st:?} and {ct:?}");
    ensure_for!(
        p,
        C::States::type_ids() == st.iter().map(|t| type_id_of(*t)).collect::<Vec<_>>()
            && C::Channels::type_ids() == ct.iter().map(|t| type_id_of(*t)).collect::<Vec<_>>(),
        "wrong-types",
        "the type ids of {what} disagree with its types"
    );
    ensure_for!(
        p,
        C::States::field_names().len() == st.len() && C::Channels::field_names().len() == ct.len(),
        "wrong-names",
        "{what} has another number of names than of properties"
    );
    if let Some(n) = C::state_names() {
        ensure_for!(p, C::States::field_names() == &n[..], "wrong-names", "the states of {what} are called {:?} instead of {n:?}", C::States::field_names());
    }
    if let Some(n) = C::channel_names() {
        ensure_for!(p, C::Channels::field_names() == &n[..], "wrong-names", "the channels of {what} are called {:?} instead of {n:?}", C::Channels::field_names());
    }
    // by position
    let by_pos: Vec<DynStateId> = (0..st.len())
        .map(|i| c.state_id(i).unwrap_or_else(|| broken(p, "position-missing", &format!("{what} has no state {i}"))))
        .collect();
    let ch_pos: Vec<DynChannelId> = (0..ct.len())
        .map(|i| c.chan_id(i).unwrap_or_else(|| broken(p, "position-missing", &format!("{what} has no channel {i}"))))
        .collect();
    for beyond in [0, 1, 7, usize::MAX - st.len().max(ct.len())] {
        ensure_for!(p, c.state_id(st.len() + beyond).is_none(), "position-beyond", "{what} has a state beyond the last one");
        ensure_for!(p, c.chan_id(ct.len() + beyond).is_none(), "position-beyond", "{what} has a channel beyond the last one");
    }
    for (i, id) in by_pos.iter().enumerate() {
        let (ty, con) = state_id_info(id);
        ensure_for!(p, ty == st[i] && raw_con(con) == raw_con(me), "wrong-id", "state {i} of {what} has type {ty} or another contract");
        if let Some(o) = sample {
            let h = bind_state_id(b, id, o.h).unwrap_or_else(|e| broken(p, "live-refused", &e));
            ensure_for!(p, h == o.states[i].0, "wrong-handle", "state {i} of {what} denotes another property");
        }
    }
    for (i, id) in ch_pos.iter().enumerate() {
        let (ty, con) = channel_id_info(id);
        ensure_for!(p, ty == ct[i] && raw_con(con) == raw_con(me), "wrong-id", "channel {i} of {what} has type {ty} or another contract");
        if let Some(o) = sample {
            let h = bind_channel_id(b, id, o.h).unwrap_or_else(|e| broken(p, "live-refused", &e));
            ensure_for!(p, raw_channel(h) == raw_channel(o.chans[i].0), "wrong-handle", "channel {i} of {what} denotes another property");
        }
    }
    // by name
    for (i, id) in c.named_states().iter().enumerate() {
        ensure_for!(p, state_ids_equal(id, &by_pos[i]), "name-differs", "the accessor of state {i} of {what} gives another id");
    }
    for (i, id) in c.named_channels().iter().enumerate() {
        ensure_for!(p, channel_ids_equal(id, &ch_pos[i]), "name-differs", "the accessor of channel {i} of {what} gives another id");
    }
    // by iteration, with skips
    let mut it: StatesIter<C::States> = c.state_iter();
    walk(&mut it, st.len(), what, "states", &|x, i| state_ids_equal(x, &by_pos[i]));
    let mut it: ChannelsIter<C::Channels> = c.chan_iter();
    walk(&mut it, ct.len(), what, "channels", &|x, i| channel_ids_equal(x, &ch_pos[i]));
    probe("every way of naming compared");
}
fn walk<T>(it: &mut dyn Iterator<Item = T>, n: usize, what: &str, kind: &str, is: &dyn Fn(&T, usize) -> bool) {
    let p = &["C11"];
    let mut pos = 0;
    let mut over = 0;
    for _ in 0..n + 4 {
        let (lo, hi) = it.size_hint();
        ensure_for!(p, lo == n - pos && hi == Some(n - pos), "wrong-count", "with {} {kind} of {what} left, the count is {lo} to {hi:?}", n - pos);
        let skip = match choose(5) {
            0 | 1 => None,
            2 => Some(choose(3)),
            3 => Some(choose(n + 2)),
            _ => {
                if chance(1, 8) {
                    Some([usize::MAX, usize::MAX - pos, usize::MAX / 2][choose(3)])
                } else {
                    Some(0)
                }
            }
        };
        let got = match catching(|| match skip {
            None => it.next(),
            Some(k) => it.nth(k),
        }) {
            Ok(g) => g,
            Err(m) => broken(p, "iteration-panics", &format!("iterating over {kind} of {what} panicked: {m}")),
        };
        let at = pos.saturating_add(skip.unwrap_or(0));
        if at < n {
            match &got {
                Some(x) => ensure_for!(p, is(x, at), "wrong-id", "iterating over {kind} of {what} (skipping {skip:?} at {pos}) gives another property than {at}"),
                None => broken(p, "iteration-short", &format!("iterating over {kind} of {what} (skipping {skip:?} at {pos} of {n}) gives nothing")),
            }
            pos = at + 1;
            if skip.unwrap_or(0) > 0 {
                probe("skipped ahead in an iteration");
            }
        } else {
            ensure_for!(p, got.is_none(), "iteration-long", "iterating over {kind} of {what} (skipping {skip:?} at {pos} of {n}) goes on past the end");
            pos = n;
            over += 1;
            if over > 2 {
                break;
            }
        }
    }
}
