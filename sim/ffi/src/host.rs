//! A foreign host at work: an application thread that drives realms through
//! the exported functions next to native twins, a worker thread with values
//! of its own, and a finalizer thread that releases what both let go of.
use crate::abi::*;
use crate::alloc::{self, lib};
use crate::val::*;
use crate::wide::*;
use crate::with_ty;
use crate::world::*;
use dsim::*;
use std::collections::VecDeque;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{Channel, ChannelId, DynChannelHandle, Keyframe};
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::id::DynStateIdPrimitive;
use tp_client::contract::properties::states::{DynStateHandle, DynStateId, StateId};
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_contract_example::ExampleContract;
use unity_states::BallContract;

const C13: &[&str] = &["C13"];
/// Content that changes under the host breaks both.
const BOTH: &[&str] = &["C13", "C14"];

/// What the host knows about something it was given to own.
#[derive(Clone)]
pub enum Thing {
    Value(P, Val),
    State(P, Val),
    Frame(P, Val, f64),
    List(usize, RVec, Frames),
    Chan(usize, P, Frames),
    /// Borrowed keyframes in an owned list.
    Frames(usize, RVec, bool),
    StateId(P, usize, ContractDataHandle, usize),
    ChanId(P, usize, ContractDataHandle, usize),
    StateHandle(P, usize, (usize, u64)),
    ChanHandle(P, usize, (usize, u64)),
    Contract(P, usize),
    Objects(RVec),
    Realm(P),
}
unsafe impl Send for Thing {}

/// A value lent to the host.
enum Lent {
    Value(P, Val),
    State(P, Val),
    Frame(P, Val, f64),
    Chan(usize, P, Frames),
    Data(P, Vec<u8>, Version),
    Text(Slice, Vec<u8>),
}
#[derive(PartialEq, Clone, Copy)]
enum Owner {
    Realm(usize),
    Thing(u64),
}

#[derive(Default)]
pub struct Bin {
    queue: VecDeque<Thing>,
    closing: bool,
}
static BIN: SimCell<Option<Bin>> = SimCell::new(None);
static SHELF: SimCell<Vec<Thing>> = SimCell::new(Vec::new());

fn val_at(ty: usize, p: P) -> Val {
    with_ty!(ty, T => T::peek(p).into_val())
}
fn check_val(props: &[&str], what: &str, p: P, want: &Val) {
    let got = val_at(want.ty(), p);
    ensure_for!(props, got.same(want), "value", "{what} is {} instead of {}", show(&got), show(want));
}
fn check_frame(props: &[&str], what: &str, k: P, v: &Val, t: f64) {
    with_ty!(v.ty(), T => {
        check_val(props, what, T::frame_value(k), v);
        let time = T::frame_time(k);
        ensure_for!(props, time.to_bits() == t.to_bits(), "value", "{what} is at time {time} instead of {t}");
    })
}
fn refs(v: &RVec) -> Vec<P> {
    if v.len == 0 {
        return Vec::new();
    }
    unsafe { std::slice::from_raw_parts(v.ptr as *const P, v.len) }.to_vec()
}
fn frame_at(ty: usize, k: P) -> (Val, f64) {
    with_ty!(ty, T => (val_at(ty, T::frame_value(k)), T::frame_time(k)))
}
fn chan_at(ty: usize, c: P) -> Frames {
    with_ty!(ty, T => {
        let l = T::chan_frames(c);
        let f = refs(&l).into_iter().map(|k| frame_at(ty, k)).collect();
        T::chan_frames_drop(l);
        f
    })
}
fn check_chan(props: &[&str], what: &str, ty: usize, c: P, want: &Frames, mutable: bool) {
    with_ty!(ty, T => {
        let l = if mutable { T::chan_frames_mut(c) } else { T::chan_frames(c) };
        ensure_for!(props, l.len == want.len(), "value", "{what} has {} keyframes instead of {}", l.len, want.len());
        for (k, (v, t)) in refs(&l).iter().zip(want) {
            check_frame(props, what, *k, v, *t);
        }
        if mutable { T::chan_frames_mut_drop(l) } else { T::chan_frames_drop(l) }
    })
}
fn data_at(d: P) -> (Vec<u8>, Version) {
    let i = contract::id(d);
    (contract::name(i).bytes().to_vec(), contract::version(i))
}
fn check_data(props: &[&str], d: P, name: &[u8], version: Version) {
    let (n, v) = data_at(d);
    ensure_for!(props, n == name, "name", "a contract named {:?} is called {:?}", String::from_utf8_lossy(name),
        String::from_utf8_lossy(&n));
    ensure_for!(props, v == version, "version", "version {version:?} came across as {v:?}");
}

impl Thing {
    fn check(&self, props: &[&str]) {
        match self {
            Thing::Value(p, v) => check_val(props, "an owned value", *p, v),
            Thing::State(p, v) => with_ty!(v.ty(), T => check_val(props, "an owned state", T::state_value(*p), v)),
            Thing::Frame(p, v, t) => check_frame(props, "an owned keyframe", *p, v, *t),
            Thing::List(ty, l, want) => with_ty!(*ty, T => {
                ensure_for!(props, l.len == want.len(), "value", "a list has {} keyframes instead of {}", l.len, want.len());
                for (i, (v, t)) in want.iter().enumerate().take(l.len) {
                    check_frame(props, "a keyframe of an owned list", T::list_get(l, i), v, *t);
                }
            }),
            Thing::Chan(ty, p, want) => check_chan(props, "an owned channel", *ty, *p, want, false),
            Thing::Frames(..) | Thing::Objects(_) => {}
            Thing::StateId(p, ty, c, i) => with_ty!(*ty, T => {
                let got = T::peek_state_id(*p);
                ensure_for!(props, got == StateId::<T>::new(*i, *c), "identity", "a state identifier became {got:?} instead of number {i} of {c:?}");
            }),
            Thing::ChanId(p, ty, c, i) => with_ty!(*ty, T => {
                let got = T::peek_chan_id(*p);
                ensure_for!(props, got == ChannelId::<T>::new(*i, *c), "identity", "a channel identifier became {got:?} instead of number {i} of {c:?}");
            }),
            Thing::StateHandle(p, ty, raw) => with_ty!(*ty, T => {
                let got: arena::generational_arena::Index = T::peek_state_handle(*p).into();
                ensure_for!(props, got.into_raw_parts() == *raw, "identity", "a state handle became {got:?} instead of {raw:?}");
            }),
            Thing::ChanHandle(p, ty, raw) => with_ty!(*ty, T => {
                let got: arena::generational_arena::Index = T::peek_chan_handle(*p).into();
                ensure_for!(props, got.into_raw_parts() == *raw, "identity", "a channel handle became {got:?} instead of {raw:?}");
            }),
            Thing::Contract(p, which) => {
                let s = match which { 0 => example::states(*p), 1 => ball::states(*p), _ => *p };
                let _ = s;
            }
            Thing::Realm(_) => {}
        }
    }
    /// What is there now is what has to stay.
    fn adopt(&mut self) {
        match self {
            Thing::Value(p, v) => *v = val_at(v.ty(), *p),
            Thing::State(p, v) => *v = with_ty!(v.ty(), T => val_at(v.ty(), T::state_value(*p))),
            Thing::Frame(p, v, t) => (*v, *t) = frame_at(v.ty(), *p),
            Thing::List(ty, l, want) => {
                *want = (0..l.len).map(|i| frame_at(*ty, with_ty!(*ty, T => T::list_get(l, i)))).collect()
            }
            Thing::Chan(ty, p, want) => *want = chan_at(*ty, *p),
            Thing::Frames(..) | Thing::Objects(_) | Thing::Contract(..) | Thing::Realm(_) => {}
            Thing::StateId(p, ty, c, i) => with_ty!(*ty, T => {
                let got = T::peek_state_id(*p);
                if got != StateId::<T>::new(*i, *c) {
                    *c = got.contract();
                    *i = (0..64).find(|i| got == StateId::<T>::new(*i, *c)).unwrap_or(0);
                }
            }),
            Thing::ChanId(p, ty, c, i) => with_ty!(*ty, T => {
                let got = T::peek_chan_id(*p);
                if got != ChannelId::<T>::new(*i, *c) {
                    *c = got.contract();
                    *i = (0..64).find(|i| got == ChannelId::<T>::new(*i, *c)).unwrap_or(0);
                }
            }),
            Thing::StateHandle(p, ty, raw) => with_ty!(*ty, T => {
                *raw = arena::generational_arena::Index::from(T::peek_state_handle(*p)).into_raw_parts()
            }),
            Thing::ChanHandle(p, ty, raw) => with_ty!(*ty, T => {
                *raw = arena::generational_arena::Index::from(T::peek_chan_handle(*p)).into_raw_parts()
            }),
        }
    }
    /// As the host gets it: what comes across wrong is a matter of C13, what
    /// changes from then on one of both.
    fn received(mut self) -> Thing {
        self.check(C13);
        self.adopt();
        self
    }
    fn release(self) {
        match self {
            Thing::Value(p, v) => with_ty!(v.ty(), T => T::release(p)),
            Thing::State(p, v) => with_ty!(v.ty(), T => T::state_drop(p)),
            Thing::Frame(p, v, _) => with_ty!(v.ty(), T => T::frame_drop(p)),
            Thing::List(ty, l, _) => with_ty!(ty, T => T::list_drop(l)),
            Thing::Chan(ty, p, _) => with_ty!(ty, T => T::chan_drop(p)),
            Thing::Frames(ty, l, false) => with_ty!(ty, T => T::chan_frames_drop(l)),
            Thing::Frames(ty, l, true) => with_ty!(ty, T => T::chan_frames_mut_drop(l)),
            Thing::StateId(p, ty, ..) => with_ty!(ty, T => T::state_id_drop(p)),
            Thing::ChanId(p, ty, ..) => with_ty!(ty, T => T::chan_id_drop(p)),
            Thing::StateHandle(p, ty, _) => with_ty!(ty, T => T::state_handle_drop(p)),
            Thing::ChanHandle(p, ty, _) => with_ty!(ty, T => T::chan_handle_drop(p)),
            Thing::Contract(p, 0) => example::drop(p),
            Thing::Contract(p, 1) => ball::drop(p),
            Thing::Contract(p, _) => wide_drop(p),
            Thing::Objects(v) => contract::objects_drop(v),
            Thing::Realm(p) => realm::drop(p),
        }
    }
    fn what(&self) -> String {
        match self {
            Thing::Value(_, v) => format!("value {}", show(v)),
            Thing::State(_, v) => format!("state {}", show(v)),
            Thing::Frame(_, v, t) => format!("keyframe {} at {t}", show(v)),
            Thing::List(ty, l, _) => format!("list of {} keyframes of type {ty}", l.len),
            Thing::Chan(ty, _, f) => format!("channel of type {ty} with {} keyframes", f.len()),
            Thing::Frames(ty, l, _) => format!("list of {} borrowed keyframes of type {ty}", l.len),
            Thing::StateId(_, ty, _, i) => format!("identifier of state {i} of type {ty}"),
            Thing::ChanId(_, ty, _, i) => format!("identifier of channel {i} of type {ty}"),
            Thing::StateHandle(_, ty, r) => format!("handle {r:?} of a state of type {ty}"),
            Thing::ChanHandle(_, ty, r) => format!("handle {r:?} of a channel of type {ty}"),
            Thing::Contract(_, w) => format!("contract of kind {w}"),
            Thing::Objects(v) => format!("list of {} objects", v.len),
            Thing::Realm(_) => "realm".into(),
        }
    }
}

/// Lets go of something: now, or whenever the finalizer gets to it.
fn let_go(t: Thing) {
    if chance(2, 3) {
        fault("release left to the finalizer");
        ev!("leaves to the finalizer: {}", t.what());
        BIN.with(|b| b.as_mut().expect("bin").queue.push_back(t));
    } else {
        ev!("releases {}", t.what());
        t.release();
    }
}
fn finalizer() {
    loop {
        let t = BIN.with(|b| {
            let b = b.as_mut().expect("bin");
            if b.queue.is_empty() {
                return if b.closing { None } else { Some(None) };
            }
            let i = choose(b.queue.len());
            if i > 0 {
                fault("release out of order");
            }
            Some(b.queue.remove(i))
        });
        match t {
            None => break,
            Some(Some(t)) => {
                ev!("finalizer releases {}", t.what());
                if chance(1, 2) {
                    t.check(BOTH);
                }
                t.release();
                if chance(1, 4) {
                    fault("finalizer delayed");
                    sleep_ns(range(1, 300) as u64 * 1000);
                }
            }
            Some(None) => sleep_ns(range(1, 50) as u64 * 1000),
        }
    }
}

/// A type; most often the one this run prefers.
static FAVOURITE: SimCell<usize> = SimCell::new(0);
fn some_ty() -> usize {
    if chance(1, 2) {
        FAVOURITE.with(|f| *f)
    } else {
        choose(14)
    }
}
/// A list that has to move while it grows.
fn grow(stock: &mut Vec<Thing>, pool: &Pool) {
    let ty = some_ty();
    let n = range(2, 12);
    ev!("makes a list of {n} keyframes of type {ty}");
    let mut want = Vec::new();
    let mut l = with_ty!(ty, T => T::list_new());
    for _ in 0..n {
        let (v, t) = (Val::gen(ty, pool), gen_time());
        with_ty!(ty, T => T::list_push(&mut l, T::frame_new(give(&v), t)));
        want.push((v, t));
        if chance(1, 4) {
            let at = choose(want.len());
            let (v, t) = (Val::gen(ty, pool), gen_time());
            with_ty!(ty, T => T::list_set(&mut l, at, T::frame_new(give(&v), t)));
            want[at] = (v, t);
        }
    }
    stock.push(Thing::List(ty, l, want).received());
}

/// Makes and changes values that belong to no realm.
fn loose(stock: &mut Vec<Thing>, pool: &Pool) {
    match weighted(&[3, 3, 2, 3, 3, 2, 2, 3]) {
        0 => {
            let v = Val::gen(some_ty(), pool);
            ev!("makes value {}", show(&v));
            let p = give(&v);
            stock.push(Thing::Value(p, v).received());
        }
        1 => {
            let v = Val::gen(some_ty(), pool);
            ev!("makes state {}", show(&v));
            let p = with_ty!(v.ty(), T => T::state_new(give(&v)));
            stock.push(Thing::State(p, v).received());
        }
        2 => {
            let Some(i) = find(stock, |t| matches!(t, Thing::State(..))) else { return };
            if let Thing::State(p, old) = &mut stock[i] {
                let v = Val::gen(old.ty(), pool);
                ev!("sets a state from {} to {}", show(old), show(&v));
                with_ty!(v.ty(), T => T::state_set(*p, give(&v)));
                *old = v;
                stock[i].check(C13);
                stock[i].adopt();
            }
        }
        3 => {
            let v = Val::gen(some_ty(), pool);
            let t = gen_time();
            ev!("makes keyframe {} at {t}", show(&v));
            let p = with_ty!(v.ty(), T => T::frame_new(give(&v), t));
            stock.push(Thing::Frame(p, v, t).received());
        }
        4 => {
            if chance(1, 6) {
                return grow(stock, pool);
            }
            // A list takes over a keyframe.
            let Some(i) = find(stock, |t| matches!(t, Thing::Frame(..))) else { return };
            let Thing::Frame(p, v, t) = stock.swap_remove(i) else { unreachable!() };
            let ty = v.ty();
            ev!("moves keyframe {} at {t} into a list", show(&v));
            let j = find(stock, |t| matches!(t, Thing::List(y, ..) if *y == ty));
            match j {
                Some(j) => {
                    if let Thing::List(_, l, want) = &mut stock[j] {
                        if !want.is_empty() && chance(1, 2) {
                            let at = choose(want.len());
                            with_ty!(ty, T => T::list_set(l, at, p));
                            want[at] = (v, t);
                        } else {
                            with_ty!(ty, T => T::list_push(l, p));
                            want.push((v, t));
                        }
                    }
                    stock[j].check(C13);
                    stock[j].adopt();
                }
                None => {
                    let mut l = with_ty!(ty, T => T::list_new());
                    with_ty!(ty, T => T::list_push(&mut l, p));
                    stock.push(Thing::List(ty, l, vec![(v, t)]).received());
                }
            }
        }
        5 => {
            let ty = some_ty();
            ev!("makes a list of type {ty}");
            let l = with_ty!(ty, T => T::list_new());
            stock.push(Thing::List(ty, l, Vec::new()));
        }
        6 => {
            let Some(i) = find(stock, |t| matches!(t, Thing::List(..))) else { return };
            let Thing::List(ty, l, want) = stock.swap_remove(i) else { unreachable!() };
            ev!("makes a channel of {} keyframes of type {ty}", want.len());
            let p = with_ty!(ty, T => T::chan_new(l));
            stock.push(Thing::Chan(ty, p, sorted(ty, &want)).received());
        }
        _ => {
            if stock.is_empty() {
                return;
            }
            let i = choose(stock.len());
            let t = stock.swap_remove(i);
            let_go(t);
        }
    }
}
/// As the native channel orders them.
fn sorted(ty: usize, f: &Frames) -> Frames {
    with_ty!(ty, T => {
        let c: Channel<T> = Channel::new(f.iter().map(|(v, t)| Keyframe::new(T::from_val(v).expect("type"), *t)));
        frames_of(&c)
    })
}
fn give(v: &Val) -> P {
    with_ty!(v.ty(), T => T::from_val(v).expect("type").give())
}
fn find(stock: &[Thing], f: impl Fn(&Thing) -> bool) -> Option<usize> {
    let c: Vec<usize> = (0..stock.len()).filter(|i| f(&stock[*i])).collect();
    if c.is_empty() {
        None
    } else {
        Some(pick(&c))
    }
}
/// A channel from the host's hands to those of a contract's own exports.
fn make_chan(ty: usize, f: &Frames) -> P {
    with_ty!(ty, T => {
        let mut l = T::list_new();
        for (v, t) in f {
            T::list_push(&mut l, T::frame_new(give(v), *t));
        }
        T::chan_new(l)
    })
}

fn worker(n: usize) {
    let mut stock = Vec::new();
    let pool = Pool::default();
    for _ in 0..n {
        loose(&mut stock, &pool);
        if chance(1, 4) {
            for t in &stock {
                t.check(BOTH);
            }
        }
        if chance(1, 6) && !stock.is_empty() {
            let i = choose(stock.len());
            let t = stock.swap_remove(i);
            ev!("hands over {}", t.what());
            SHELF.with(|s| s.push(t));
        }
        if chance(1, 8) {
            sleep_ns(range(1, 100) as u64 * 1000);
        }
    }
    while !stock.is_empty() {
        let i = choose(stock.len());
        let t = stock.swap_remove(i);
        let_go(t);
    }
}

enum Twin {
    Example(ExampleContract),
    Ball(BallContract),
    Wide(Wide),
}
struct Con {
    which: usize,
    /// The host's own contract, until it lets go of it.
    f: Option<P>,
    n: Twin,
    live: bool,
}
impl Con {
    fn handle(&self) -> ContractDataHandle {
        match &self.n {
            Twin::Example(c) => c.handle(),
            Twin::Ball(c) => c.handle(),
            Twin::Wide(c) => c.handle(),
        }
    }
    fn id(&self) -> ContractId {
        match &self.n {
            Twin::Example(_) => ExampleContract::ID,
            Twin::Ball(_) => BallContract::ID,
            Twin::Wide(_) => Wide::ID,
        }
    }
    fn state_types(&self) -> Vec<usize> {
        match self.which {
            0 => EXAMPLE_TYPES.to_vec(),
            1 => BALL_TYPES.to_vec(),
            _ => (0..14).collect(),
        }
    }
    fn chan_types(&self) -> Vec<usize> {
        match self.which {
            2 => (0..14).collect(),
            _ => Vec::new(),
        }
    }
    fn bind(&self, b: &Baseline, i: usize, o: ObjectHandle) -> DynStateHandle {
        let id = match &self.n {
            Twin::Example(c) => c.state_id(i),
            Twin::Ball(c) => c.state_id(i),
            Twin::Wide(c) => c.state_id(i),
        };
        bind_state_id(b, &id.expect("native state id"), o).unwrap_or_else(|e| broken(C13, "native", &e))
    }
    fn bind_chan(&self, b: &Baseline, i: usize, o: ObjectHandle) -> DynChannelHandle {
        let id = match &self.n {
            Twin::Example(c) => c.chan_id(i),
            Twin::Ball(c) => c.chan_id(i),
            Twin::Wide(c) => c.chan_id(i),
        };
        bind_channel_id(b, &id.expect("native channel id"), o).unwrap_or_else(|e| broken(C13, "native", &e))
    }
}


struct Obj {
    con: usize,
    h: ObjectHandle,
    f: Vec<P>,
}
struct Realm {
    f: P,
    n: Baseline,
    cons: Vec<Con>,
    objs: Vec<Obj>,
}
impl Realm {
    fn fb(&self) -> &Baseline {
        unsafe { &*(self.f as *const Baseline) }
    }
}

struct Host {
    realms: Vec<Option<Realm>>,
    stock: Vec<Thing>,
    tags: Vec<u64>,
    next_tag: u64,
    lent: Vec<(Lent, Owner)>,
}

pub fn contract_of(which: usize, b: P) -> P {
    match which {
        0 => example::register(b),
        1 => ball::register(b),
        _ => wide_register(b),
    }
}
fn contract_handle(which: usize, c: P) -> P {
    match which {
        0 => example::handle(c),
        1 => ball::handle(c),
        _ => wide_handle(c),
    }
}

impl Host {
    fn own(&mut self, t: Thing) -> u64 {
        self.next_tag += 1;
        self.stock.push(t.received());
        self.tags.push(self.next_tag);
        self.next_tag
    }
    fn disown(&mut self, i: usize) -> Thing {
        let tag = self.tags.swap_remove(i);
        self.end(Owner::Thing(tag));
        self.stock.swap_remove(i)
    }
    /// Borrows from `o` end here; they must have held until now.
    fn end(&mut self, o: Owner) {
        let mut i = 0;
        while i < self.lent.len() {
            if self.lent[i].1 == o {
                let (l, _) = self.lent.swap_remove(i);
                check_lent(BOTH, &l);
            } else {
                i += 1;
            }
        }
    }
    fn lend(&mut self, l: Lent, o: Owner) {
        let mut l = l;
        check_lent(C13, &l);
        match &mut l {
            Lent::Value(p, v) => *v = val_at(v.ty(), *p),
            Lent::State(p, v) => *v = with_ty!(v.ty(), T => val_at(v.ty(), T::state_value(*p))),
            Lent::Frame(p, v, t) => (*v, *t) = frame_at(v.ty(), *p),
            Lent::Chan(ty, p, want) => *want = chan_at(*ty, *p),
            Lent::Data(p, n, v) => (*n, *v) = data_at(*p),
            Lent::Text(s, want) => *want = s.bytes().to_vec(),
        }
        if self.lent.len() < 32 {
            // The text of a string is borrowed as well.
            if let Lent::Value(p, Val::One(One::String(_))) = &l {
                let s = text::value(*p);
                self.lent.push((Lent::Text(s, s.bytes().to_vec()), o));
            }
            self.lent.push((l, o));
        }
    }
    fn pool(&self, r: usize) -> Pool {
        let mut p = Pool::default();
        if let Some(Some(r)) = self.realms.get(r) {
            p.objs = r.objs.iter().map(|o| o.h).collect();
            p.cons = r.cons.iter().map(|c| c.handle()).collect();
        }
        p
    }
    fn check_all(&self) {
        for t in &self.stock {
            t.check(BOTH);
        }
        for (l, _) in &self.lent {
            check_lent(BOTH, l);
        }
    }

    fn step(&mut self) {
        let r = choose(self.realms.len());
        if self.realms[r].is_none() {
            let kind = choose(2);
            ev!("makes realm {r} of kind {kind}");
            let f = realm::new(kind as u8);
            let n = Baseline::new(if kind == 0 { BaselineKind::Main } else { BaselineKind::Fork });
            let got = realm::kind(f);
            ensure_for!(C13, got == kind as u8, "kind", "a realm of kind {kind} says that it is of kind {got}");
            self.realms[r] = Some(Realm { f, n, cons: Vec::new(), objs: Vec::new() });
            return;
        }
        match weighted(&[8, 4, 10, 6, 6, 8, 4, 2, 2, 3, 5, 2, 1, 1, 2, 2]) {
            0 => self.loose_step(r),
            1 => self.register(r),
            2 => self.create(r),
            3 => self.read_state(r),
            4 => self.write_state(r),
            5 => self.read_chan(r),
            6 => self.identify(r),
            7 => self.remove(r),
            8 => self.describe(r),
            9 => self.native(r),
            10 => {
                if !self.stock.is_empty() {
                    let i = choose(self.stock.len());
                    let t = self.disown(i);
                    let_go(t);
                }
            }
            11 => self.check_all(),
            12 => self.unregister(r),
            13 => self.drop_realm(r),
            14 => {
                if let Some(t) = SHELF.with(|s| s.pop()) {
                    ev!("takes over {}", t.what());
                    probe("value moved between threads");
                    self.own(t);
                }
            }
            _ => self.look(r),
        }
    }
    fn loose_step(&mut self, r: usize) {
        // Borrows from what may change or go end first.
        let pool = self.pool(r);
        if chance(1, 3) {
            if let Some(i) = find(&self.stock, |t| matches!(t, Thing::Value(..) | Thing::State(..) | Thing::Frame(..) | Thing::Chan(..))) {
                let o = Owner::Thing(self.tags[i]);
                let l = match &self.stock[i] {
                    Thing::Value(p, v) => Lent::Value(*p, v.clone()),
                    Thing::State(p, v) => Lent::Value(with_ty!(v.ty(), T => T::state_value(*p)), v.clone()),
                    Thing::Frame(p, v, _) => Lent::Value(with_ty!(v.ty(), T => T::frame_value(*p)), v.clone()),
                    Thing::Chan(ty, p, want) => {
                        let l = with_ty!(*ty, T => T::chan_frames(*p));
                        let n = refs(&l);
                        let ty = *ty;
                        let pairs: Vec<_> = n.into_iter().zip(want.clone()).collect();
                        self.own(Thing::Frames(ty, l, false));
                        for (k, (v, t)) in pairs {
                            self.lend(Lent::Frame(k, v, t), o);
                        }
                        return;
                    }
                    _ => unreachable!(),
                };
                self.lend(l, o);
            }
            return;
        }
        let mut part: Vec<Thing> = Vec::new();
        let mut k = 0;
        // Only a part, so that most borrows stay.
        while k < 4 && !self.stock.is_empty() {
            let i = choose(self.stock.len());
            if matches!(self.stock[i], Thing::State(..) | Thing::Frame(..) | Thing::List(..)) {
                part.push(self.disown(i));
            }
            k += 1;
        }
        loose(&mut part, &pool);
        for t in part {
            self.own(t);
        }
    }
    fn register(&mut self, r: usize) {
        let which = choose(3);
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].as_mut().expect("realm");
        if realm_.cons.iter().any(|c| c.which == which && c.live) {
            return;
        }
        ev!("registers contract {which} in realm {r}");
        let f = contract_of(which, realm_.f);
        let n = match which {
            0 => realm_.n.register_contract::<ExampleContract>().map(Twin::Example),
            1 => realm_.n.register_contract::<BallContract>().map(Twin::Ball),
            _ => realm_.n.register_contract::<Wide>().map(Twin::Wide),
        };
        let n = n.unwrap_or_else(|e| broken(C13, "native", &e.to_string()));
        let c = Con { which, f: Some(f), n, live: true };
        let h = contract_handle(which, f);
        let got = ContractDataHandle::peek(h);
        ensure_for!(C13, raw_con(got) == raw_con(c.handle()), "identity", "the contract's handle is {got:?} instead of {:?}", c.handle());
        let v = c.handle().into_val();
        realm_.cons.push(c);
        self.own(Thing::Value(h, v));
    }
    fn some_con(&self, r: usize) -> Option<usize> {
        let realm_ = self.realms[r].as_ref().expect("realm");
        let c: Vec<usize> = (0..realm_.cons.len()).filter(|i| realm_.cons[*i].live).collect();
        if c.is_empty() {
            None
        } else {
            Some(pick(&c))
        }
    }
    fn create(&mut self, r: usize) {
        let Some(ci) = self.some_con(r) else { return };
        let pool = self.pool(r);
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].as_mut().expect("realm");
        let con = &realm_.cons[ci];
        let Some(fc) = con.f else { return };
        let vals: Vec<Val> = con.state_types().into_iter().map(|t| Val::gen(t, &pool)).collect();
        let chans: Vec<(usize, Frames)> = con.chan_types().into_iter().map(|t| (t, gen_frames(t, &pool, 3))).collect();
        ev!("creates an object of contract {} in realm {r} with {}", con.which, vals.iter().map(show).collect::<Vec<_>>().join(", "));
        let states: Vec<DynTpProperty> = vals.iter().map(|v| v.to_prop()).collect();
        let dyn_chans: Vec<_> = chans.iter().map(|(t, f)| make_channel(*t, f)).collect();
        let b = realm_.f;
        macro_rules! of {
            ($i:expr, $t:ty) => {
                <$t as Ty>::from_val(&vals[$i]).expect("type")
            };
        }
        let (fo, n) = match &con.n {
            Twin::Example(c) => (
                example::object_create(fc, b, of!(0, u8), of!(1, u8), of!(2, i8), of!(3, i8), of!(4, f32), of!(5, f32),
                    give(&vals[6]), give(&vals[7]), give(&vals[8])),
                realm_.n.object_create(c, states.into_iter(), dyn_chans.into_iter()),
            ),
            Twin::Ball(c) => (
                ball::object_create(b, fc, of!(0, f32), of!(1, f32), of!(2, f32), of!(3, i16), of!(4, i16), of!(5, i16),
                    of!(6, f32), of!(7, f32), of!(8, f32), of!(9, u64)),
                realm_.n.object_create(c, states.into_iter(), dyn_chans.into_iter()),
            ),
            Twin::Wide(c) => (
                {
                    let ps: Vec<P> = vals.iter().map(give).collect();
                    let cs: Vec<P> = chans.iter().map(|(t, f)| make_chan(*t, f)).collect();
                    wide_create(fc, b, &ps, &cs)
                },
                realm_.n.object_create(c, states.into_iter(), dyn_chans.into_iter()),
            ),
        };
        let n = n.unwrap_or_else(|e| broken(C13, "native", &e.to_string()));
        let got = ObjectHandle::peek(fo);
        ensure_for!(C13, raw_obj(got) == raw_obj(n), "identity", "the created object is {got:?} instead of {n:?}");
        realm_.objs.push(Obj { con: ci, h: n, f: vec![fo] });
        probe("object created through the interface");
    }
    fn some_obj(&self, r: usize) -> Option<usize> {
        let n = self.realms[r].as_ref().expect("realm").objs.len();
        if n == 0 {
            None
        } else {
            Some(choose(n))
        }
    }
    /// A handle of the object that the host owns, possibly a new one.
    fn obj_ptr(&mut self, r: usize, oi: usize) -> P {
        let o = &mut self.realms[r].as_mut().expect("realm").objs[oi];
        if o.f.is_empty() {
            o.f.push(o.h.give());
        }
        o.f[0]
    }
    /// Gets the identifier of a state through the contract's exports.
    fn state_id(&mut self, r: usize, ci: usize, i: usize) -> Option<P> {
        let con = &self.realms[r].as_ref().expect("realm").cons[ci];
        let f = con.f?;
        let ty = con.state_types()[i];
        let h = con.handle();
        let p = match con.which {
            0 => EXAMPLE_IDS[i](example::states(f)),
            1 => BALL_IDS[i](ball::states(f)),
            _ => wide_state_id(f, i),
        };
        let t = Thing::StateId(p, ty, h, i);
        let got = with_ty!(ty, T => T::state_id_contract(p));
        self.own(t);
        let v = h.into_val();
        self.own(Thing::Value(got, v));
        Some(p)
    }
    fn chan_id(&mut self, r: usize, ci: usize, i: usize) -> Option<P> {
        let con = &self.realms[r].as_ref().expect("realm").cons[ci];
        let f = con.f?;
        let ty = con.chan_types()[i];
        let h = con.handle();
        let p = wide_chan_id(f, i);
        let t = Thing::ChanId(p, ty, h, i);
        let got = with_ty!(ty, T => T::chan_id_contract(p));
        self.own(t);
        let v = h.into_val();
        self.own(Thing::Value(got, v));
        Some(p)
    }
    /// Gets a handle of a state through the interface, and the native one.
    fn bind(&mut self, r: usize, oi: usize, i: usize) -> Option<(P, DynStateHandle)> {
        let ci = self.realms[r].as_ref().expect("realm").objs[oi].con;
        let id = self.state_id(r, ci, i)?;
        let op = self.obj_ptr(r, oi);
        let realm_ = self.realms[r].as_ref().expect("realm");
        let con = &realm_.cons[ci];
        let ty = con.state_types()[i];
        let n = con.bind(&realm_.n, i, realm_.objs[oi].h);
        let p = with_ty!(ty, T => T::bind_state(realm_.f, id, op));
        let t = Thing::StateHandle(p, ty, raw_state(n));
        self.own(t);
        Some((p, n))
    }
    fn bind_chan(&mut self, r: usize, oi: usize, i: usize) -> Option<(P, DynChannelHandle)> {
        let ci = self.realms[r].as_ref().expect("realm").objs[oi].con;
        let id = self.chan_id(r, ci, i)?;
        let op = self.obj_ptr(r, oi);
        let realm_ = self.realms[r].as_ref().expect("realm");
        let con = &realm_.cons[ci];
        let ty = con.chan_types()[i];
        let n = con.bind_chan(&realm_.n, i, realm_.objs[oi].h);
        let p = with_ty!(ty, T => T::bind_chan(realm_.f, id, op));
        let t = Thing::ChanHandle(p, ty, raw_channel(n));
        self.own(t);
        Some((p, n))
    }
    fn read_state(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        let ci = self.realms[r].as_ref().expect("realm").objs[oi].con;
        let types = self.realms[r].as_ref().expect("realm").cons[ci].state_types();
        let i = choose(types.len());
        let Some((p, n)) = self.bind(r, oi, i) else { return };
        let realm_ = self.realms[r].as_ref().expect("realm");
        let want = read_state(&realm_.n, n, 1).unwrap_or_else(|e| broken(C13, "native", &e));
        ev!("reads state {i} of object {:?} in realm {r}, expecting {}", realm_.objs[oi].h, show(&want));
        let (s, v) = with_ty!(types[i], T => {
            let s = T::realm_state(realm_.f, p);
            (s, T::state_value(s))
        });
        nontrivial();
        self.lend(Lent::Value(v, want.clone()), Owner::Realm(r));
        self.lend(Lent::State(s, want), Owner::Realm(r));
    }
    fn write_state(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        let ci = self.realms[r].as_ref().expect("realm").objs[oi].con;
        let types = self.realms[r].as_ref().expect("realm").cons[ci].state_types();
        let i = choose(types.len());
        let Some((p, n)) = self.bind(r, oi, i) else { return };
        let pool = self.pool(r);
        let ty = types[i];
        // A value the host already owns, or a new one.
        let have = find(&self.stock, |t| matches!(t, Thing::Value(_, v) if v.ty() == ty));
        let (vp, v) = match have {
            Some(k) if chance(1, 2) => {
                let Thing::Value(vp, v) = self.disown(k) else { unreachable!() };
                (vp, v)
            }
            _ => {
                let v = Val::gen(ty, &pool);
                (give(&v), v)
            }
        };
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].as_mut().expect("realm");
        ev!("writes {} to state {i} of object {:?} in realm {r}", show(&v), realm_.objs[oi].h);
        with_ty!(ty, T => T::state_set(T::realm_state_mut(realm_.f, p), vp));
        let ok = write_state(&mut realm_.n, n, &v, 1).unwrap_or_else(|e| broken(C13, "native", &e));
        if !ok {
            broken(C13, "native", "a native write didn't fit")
        }
        probe("state written through the interface");
        if chance(1, 2) {
            let want = read_state(&realm_.n, n, 1).unwrap_or_else(|e| broken(C13, "native", &e));
            with_ty!(ty, T => check_val(C13, "a written state", T::state_value(T::realm_state(realm_.f, p)), &want));
        }
    }
    fn read_chan(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        let ci = self.realms[r].as_ref().expect("realm").objs[oi].con;
        let types = self.realms[r].as_ref().expect("realm").cons[ci].chan_types();
        if types.is_empty() {
            return;
        }
        let i = choose(types.len());
        let Some((p, n)) = self.bind_chan(r, oi, i) else { return };
        let ty = types[i];
        let mutable = chance(1, 3);
        if mutable {
            self.end(Owner::Realm(r));
        }
        let realm_ = self.realms[r].as_ref().expect("realm");
        let want = read_channel(&realm_.n, n, 1).unwrap_or_else(|e| broken(C13, "native", &e));
        ev!("reads channel {i} of object {:?} in realm {r}", realm_.objs[oi].h);
        let c = with_ty!(ty, T => if mutable { T::realm_chan_mut(realm_.f, p) } else { T::realm_chan(realm_.f, p) });
        check_chan(C13, "a channel", ty, c, &want, mutable);
        probe("channel read through the interface");
        if mutable {
            return;
        }
        if chance(1, 2) {
            let l = with_ty!(ty, T => T::chan_frames(c));
            for (k, (v, t)) in refs(&l).into_iter().zip(want.clone()) {
                self.lend(Lent::Frame(k, v, t), Owner::Realm(r));
            }
            self.own(Thing::Frames(ty, l, false));
        }
        self.lend(Lent::Chan(ty, c, want), Owner::Realm(r));
    }
    fn identify(&mut self, r: usize) {
        let Some(ci) = self.some_con(r) else { return };
        let con = &self.realms[r].as_ref().expect("realm").cons[ci];
        let (ns, nc) = (con.state_types().len(), con.chan_types().len());
        // The native identifiers come from their own accessors.
        if con.which == 1 {
            if let Twin::Ball(c) = &con.n {
                for i in 0..ns {
                    let id = c.state_id(i).expect("native state id");
                    let (ty, h) = state_id_info(&id);
                    ensure_for!(C13, ty == BALL_TYPES[i] && raw_con(h) == raw_con(con.handle()), "identity", "state {i} is of type {ty}");
                }
            }
        }
        let i = choose(ns + nc);
        ev!("asks for identifier {i} of contract {} in realm {r}", con.which);
        if i < ns {
            self.state_id(r, ci, i);
        } else {
            self.chan_id(r, ci, i - ns);
        }
    }
    fn remove(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        self.end(Owner::Realm(r));
        let _ = self.obj_ptr(r, oi);
        let realm_ = self.realms[r].as_mut().expect("realm");
        let mut o = realm_.objs.swap_remove(oi);
        let which = realm_.cons[o.con].which;
        ev!("removes object {:?} of contract {which} from realm {r}", o.h);
        let p = o.f.remove(0);
        let n = match which {
            0 => {
                example::object_remove(realm_.f, p);
                realm_.n.object_remove::<ExampleContract>(o.h)
            }
            1 => {
                ball::object_remove(realm_.f, p);
                realm_.n.object_remove::<BallContract>(o.h)
            }
            _ => {
                wide_remove(realm_.f, p);
                realm_.n.object_remove::<Wide>(o.h)
            }
        };
        if let Err(e) = n {
            broken(C13, "native", &e.to_string())
        }
        let v = o.h.into_val();
        for p in o.f {
            self.own(Thing::Value(p, v.clone()));
        }
        probe("object removed through the interface");
    }
    fn describe(&mut self, r: usize) {
        let Some(ci) = self.some_con(r) else { return };
        let realm_ = self.realms[r].as_ref().expect("realm");
        let con = &realm_.cons[ci];
        ev!("asks what contract {} in realm {r} is", con.which);
        let hp = con.handle().give();
        let d = realm::contract_data(realm_.f, hp);
        let id = con.id();
        let mut want: Vec<_> = realm_.n.contract_data(con.handle()).unwrap_or_else(|e| broken(C13, "native", &e.to_string()))
            .objects().iter().map(|o| raw_obj(*o)).collect();
        want.sort();
        let l = contract::objects(d);
        let size = std::mem::size_of::<tp_client::object::c_api::ObjectHandle>();
        let mut got: Vec<_> = (0..l.len).map(|i| raw_obj(ObjectHandle::peek((l.ptr as usize + i * size) as P))).collect();
        got.sort();
        ensure_for!(C13, got == want, "objects", "the contract's objects are {got:?} instead of {want:?}");
        let name = contract::name(contract::id(d));
        let h = con.handle().into_val();
        self.own(Thing::Objects(l));
        self.own(Thing::Value(hp, h));
        let (major, minor, patch) = id.version;
        self.lend(Lent::Data(d, id.name.as_bytes().to_vec(), Version { major, minor, patch }), Owner::Realm(r));
        self.lend(Lent::Text(name, id.name.as_bytes().to_vec()), Owner::Realm(r));
        if chance(1, 6) {
            // The host's own contract isn't needed for the data to stay.
            if let Some(p) = self.realms[r].as_mut().expect("realm").cons[ci].f.take() {
                let w = self.realms[r].as_ref().expect("realm").cons[ci].which;
                let_go(Thing::Contract(p, w));
            }
        }
    }
    /// Native use of the realm the host also uses.
    fn native(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        let pool = self.pool(r);
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].as_mut().expect("realm");
        let o = &realm_.objs[oi];
        let con = &realm_.cons[o.con];
        let fb = unsafe { &mut *(realm_.f as *mut Baseline) };
        let types = con.state_types();
        let i = choose(types.len());
        let h = con.bind(&realm_.n, i, o.h);
        let v = Val::gen(types[i], &pool);
        ev!("native code writes {} to state {i} of object {:?} in realm {r}", show(&v), o.h);
        probe("native use of the host's realm");
        let path = choose(STATE_WRITE_PATHS);
        let a = lib(|| write_state(fb, h, &v, path));
        let b = write_state(&mut realm_.n, h, &v, path);
        ensure_for!(C13, a == b, "value", "a native write gave {a:?} and {b:?}");
        if let Some(ty) = con.chan_types().get(i).copied() {
            let h = con.bind_chan(&realm_.n, i, o.h);
            let e = Edit::Push(Val::gen(ty, &pool), gen_time());
            let path = range(1, 3);
            let a = lib(|| edit_channel(fb, h, &e, path));
            let b = edit_channel(&mut realm_.n, h, &e, path);
            ensure_for!(C13, a == b, "value", "a native edit gave {a:?} and {b:?}");
        }
    }
    fn unregister(&mut self, r: usize) {
        let Some(ci) = self.some_con(r) else { return };
        let realm_ = self.realms[r].as_ref().expect("realm");
        if realm_.cons[ci].which == 0 {
            return; // has no export for it
        }
        // With at most one object, so that both sides give back slots in the same order.
        while self.realms[r].as_ref().expect("realm").objs.iter().filter(|o| o.con == ci).count() > 1 {
            let realm_ = self.realms[r].as_mut().expect("realm");
            let oi = realm_.objs.iter().position(|o| o.con == ci).expect("object");
            self.end(Owner::Realm(r));
            let realm_ = self.realms[r].as_mut().expect("realm");
            let mut o = realm_.objs.remove(oi);
            let p = o.f.pop().unwrap_or_else(|| o.h.give());
            let e = if realm_.cons[ci].which == 1 {
                ball::object_remove(realm_.f, p);
                realm_.n.object_remove::<BallContract>(o.h)
            } else {
                wide_remove(realm_.f, p);
                realm_.n.object_remove::<Wide>(o.h)
            };
            if let Err(e) = e {
                broken(C13, "native", &e.to_string())
            }
            let v = o.h.into_val();
            for p in o.f {
                self.own(Thing::Value(p, v.clone()));
            }
        }
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].as_mut().expect("realm");
        let con = &mut realm_.cons[ci];
        ev!("unregisters contract {} from realm {r}", con.which);
        con.live = false;
        let h = con.handle();
        let hp = h.give();
        let e = if con.which == 1 {
            ball::unregister(realm_.f, hp);
            realm_.n.unregister_contract::<BallContract>(h)
        } else {
            wide_unregister(realm_.f, hp);
            realm_.n.unregister_contract::<Wide>(h)
        };
        if let Err(e) = e {
            broken(C13, "native", &e.to_string())
        }
        let f = con.f.take();
        let which = con.which;
        let gone: Vec<Obj> = {
            let (gone, rest) = std::mem::take(&mut realm_.objs).into_iter().partition(|o| o.con == ci);
            realm_.objs = rest;
            gone
        };
        for o in gone {
            let v = o.h.into_val();
            for p in o.f {
                self.own(Thing::Value(p, v.clone()));
            }
        }
        if let Some(p) = f {
            self.own(Thing::Contract(p, which));
        }
        probe("contract unregistered through the interface");
    }
    /// Everything of a realm, natively on both sides.
    fn compare(&self, r: usize) {
        let realm_ = self.realms[r].as_ref().expect("realm");
        let (f, n) = (realm_.fb(), &realm_.n);
        ensure_for!(C13, f.kind() == n.kind(), "kind", "the realm is {:?} instead of {:?}", f.kind(), n.kind());
        for c in realm_.cons.iter().filter(|c| c.live) {
            let a = f.contract_data(c.handle()).map(|d| {
                let mut v: Vec<_> = d.objects().iter().map(|o| raw_obj(*o)).collect();
                v.sort();
                v
            });
            let b = n.contract_data(c.handle()).map(|d| {
                let mut v: Vec<_> = d.objects().iter().map(|o| raw_obj(*o)).collect();
                v.sort();
                v
            });
            match (a, b) {
                (Ok(a), Ok(b)) => ensure_for!(C13, a == b, "objects", "contract {} ended up with objects {a:?} instead of {b:?}", c.which),
                (a, b) => ensure_for!(C13, a.is_ok() == b.is_ok(), "objects", "contract {} exists on one side only", c.which),
            }
        }
        for o in &realm_.objs {
            let c = &realm_.cons[o.con];
            if !c.live {
                continue;
            }
            for i in 0..c.state_types().len() {
                let h = c.bind(n, i, o.h);
                let (a, b) = (read_state(f, h, 0), read_state(n, h, 0));
                match (a, b) {
                    (Ok(a), Ok(b)) => ensure_for!(C13, a.same(&b), "contents", "state {i} of {:?} ended up as {} instead of {}", o.h, show(&a), show(&b)),
                    (a, b) => ensure_for!(C13, a.is_ok() == b.is_ok(), "contents", "state {i} of {:?} exists on one side only", o.h),
                }
            }
            for i in 0..c.chan_types().len() {
                let h = c.bind_chan(n, i, o.h);
                let (a, b) = (read_channel(f, h, 0), read_channel(n, h, 0));
                match (a, b) {
                    (Ok(a), Ok(b)) => ensure_for!(C13, same_frames(&a, &b), "contents", "channel {i} of {:?} ended up as {a:?} instead of {b:?}", o.h),
                    (a, b) => ensure_for!(C13, a.is_ok() == b.is_ok(), "contents", "channel {i} of {:?} exists on one side only", o.h),
                }
            }
        }
    }
    fn drop_realm(&mut self, r: usize) {
        self.compare(r);
        self.end(Owner::Realm(r));
        let realm_ = self.realms[r].take().expect("realm");
        ev!("lets go of realm {r}");
        // What the host still holds of it may outlive it.
        let_go(Thing::Realm(realm_.f));
        for c in realm_.cons {
            if let Some(p) = c.f {
                self.own(Thing::Contract(p, c.which));
            }
        }
        for o in realm_.objs {
            for p in o.f {
                self.own(Thing::Value(p, o.h.into_val()));
            }
        }
    }
    /// Object access, and another owned handle.
    fn look(&mut self, r: usize) {
        let Some(oi) = self.some_obj(r) else { return };
        let p = self.obj_ptr(r, oi);
        let mutable = chance(1, 2);
        if mutable {
            self.end(Owner::Realm(r));
        }
        let realm_ = self.realms[r].as_mut().expect("realm");
        let o = if mutable { realm::object_mut(realm_.f, p) } else { realm::object(realm_.f, p) };
        let fo = unsafe { &*(o as *const tp_client::object::Object) };
        let obj = &realm_.objs[oi];
        let con = &realm_.cons[obj.con];
        let types = con.state_types();
        let i = choose(types.len());
        let want = con.bind(&realm_.n, i, obj.h);
        let id = match &con.n {
            Twin::Example(c) => c.state_id(i),
            Twin::Ball(c) => c.state_id(i),
            Twin::Wide(c) => c.state_id(i),
        };
        let got = with_ty!(types[i], T => {
            let id: StateId<T> = typed_id::<T>(&id.expect("native state id"));
            catching(|| raw_index(fo.state::<T>(id)))
        });
        ensure_for!(C13, got == Ok(raw_state(want)), "identity", "state {i} of the object is {got:?} instead of {:?}", raw_state(want));
        let v = obj.h.into_val();
        let extra = obj.h.give();
        self.own(Thing::Value(extra, v));
    }
}
fn raw_index<T: Ty>(h: tp_client::contract::properties::states::StateHandle<T>) -> (usize, u64) {
    let i: arena::generational_arena::Index = h.into();
    i.into_raw_parts()
}
fn typed_id<T: Ty>(id: &DynStateId) -> StateId<T> {
    let (_, c) = state_id_info(id);
    let _ = c;
    macro_rules! go {
        (; $(($v:ident, $t:ty))*) => {
            match id {
                $(DynStateId::Primitive(DynStateIdPrimitive::$v(x)) => {
                    let x: Box<dyn std::any::Any> = Box::new(x.clone());
                    *x.downcast::<StateId<T>>().expect("type")
                })*
                _ => unreachable!(),
            }
        };
    }
    crate::all_types!(go)
}

fn check_lent(props: &[&str], l: &Lent) {
    match l {
        Lent::Value(p, v) => check_val(props, "a borrowed value", *p, v),
        Lent::State(p, v) => with_ty!(v.ty(), T => check_val(props, "a borrowed state", T::state_value(*p), v)),
        Lent::Frame(p, v, t) => check_frame(props, "a borrowed keyframe", *p, v, *t),
        Lent::Chan(ty, p, want) => check_chan(props, "a borrowed channel", *ty, *p, want, false),
        Lent::Data(p, n, v) => check_data(props, *p, n, *v),
        Lent::Text(s, want) => {
            ensure_for!(props, s.bytes() == &want[..], "text", "a borrowed text became {:?}", String::from_utf8_lossy(s.bytes()))
        }
    }
}

fn application(steps: usize, realms: usize) {
    let mut h = Host { realms: (0..realms).map(|_| None).collect(), stock: Vec::new(), tags: Vec::new(), next_tag: 0, lent: Vec::new() };
    for _ in 0..steps {
        h.step();
        if chance(1, 8) {
            sleep_ns(range(1, 50) as u64 * 1000);
        }
    }
    h.check_all();
    for r in 0..realms {
        if h.realms[r].is_some() {
            h.drop_realm(r);
        }
    }
    while !h.stock.is_empty() {
        let i = choose(h.stock.len());
        let t = h.disown(i);
        let_go(t);
    }
}

#[derive(Default)]
struct Tapes {
    app: Tape,
    work: Tape,
    fin: Tape,
}
/// One life of the host, after which it owns nothing.
fn life(steps: usize, realms: usize, work: usize, t: &mut Tapes) {
    BIN.with(|b| *b = Some(Bin::default()));
    SHELF.with(|s| s.clear());
    let Tapes { app, work: wt, fin } = t;
    std::thread::scope(|s| {
        let f = s.spawn(move || {
            let _t = tape(fin);
            finalizer()
        });
        let w = if work > 0 {
            Some(s.spawn(move || {
                let _t = tape(wt);
                worker(work)
            }))
        } else {
            None
        };
        {
            let _t = tape(app);
            application(steps, realms);
        }
        if let Some(w) = w {
            w.join().unwrap_or_else(|_| violation("panic", &last_panic()));
        }
        for t in SHELF.with(std::mem::take) {
            t.release();
        }
        BIN.with(|b| b.as_mut().expect("bin").closing = true);
        f.join().unwrap_or_else(|_| violation("panic", &last_panic()));
    });
    BIN.with(|b| *b = None);
}

fn setup(yielding: bool) -> bool {
    let mut c = Config { step_ns: 200, ..Config::default() };
    c.policy = if chance(1, 3) { 2 } else { 0 };
    c.switch_pct = pick(&[5, 20, 50]);
    c.fine_log = if chance(1, 4) { 8 } else { 0 };
    c.stall_pm = pick(&[0, 0, 5]);
    c.stall_max_us = 300;
    c.max_points = 4_000_000;
    set_config(&c);
    let guarded = chance(1, 3);
    alloc::start(guarded);
    alloc::yields(yielding);
    let f = pick(&[11, 11, 12, 13, 3, choose(14)]);
    FAVOURITE.with(|x| *x = f);
    guarded
}
fn check_leaks(since: u32, when: &str) -> (usize, usize) {
    let _q = quiet();
    let (lost, kept, text) = alloc::leftover(since);
    ensure_for!(&["C14"], lost.0 == 0, "leak", "{when}, {} blocks of {} bytes can never be reclaimed:{text}", lost.0, lost.1);
    kept
}

/// C13 and C14: a life of the host with all its threads.
pub fn session() {
    setup(chance(1, 2));
    let steps = range(10, 120);
    let realms = range(1, 2);
    let work = pick(&[0, 0, 10, 30]);
    let mut t = Tapes::default();
    let e = alloc::next_epoch();
    life(steps, realms, work, &mut t);
    alloc::check_integrity();
    check_leaks(e, "after everything was released");
    summary(&format!("{steps} steps, {} blocks", alloc::total_blocks()));
}
/// C14: the same life again and again, which must not need more and more memory.
pub fn again() {
    setup(false);
    let steps = range(5, 40);
    let work = pick(&[0, 10]);
    let mut t = Tapes::default();
    let mut kept = Vec::new();
    let e = alloc::next_epoch();
    // What is made once for ever is mostly made in the first two lives, but a
    // later one may still meet something for the first time (the threads
    // interleave differently). What goes on growing is larger after every
    // doubling of the number of lives, even if it grows by doubling itself.
    let mut lives = 0;
    for until in [2, 4, 8, 16, 32] {
        while lives < until {
            life(steps, 1, work, &mut t);
            t.app.rewind();
            t.work.rewind();
            t.fin.rewind();
            lives += 1;
        }
        kept.push(check_leaks(e, "after everything was released").1);
        if kept.len() > 1 && kept[kept.len() - 1] <= kept[kept.len() - 2] {
            break;
        }
    }
    alloc::check_integrity();
    if kept.len() > 2 {
        probe("memory grew between a second and a fourth life");
    }
    let steady = kept[kept.len() - 1] <= kept[kept.len() - 2];
    ensure_for!(&["C14"], steady, "growth", "the same work done 2, 4, 8, 16 and 32 times kept {kept:?} bytes for ever");
}

/// C13 and C14: lists, texts and realms far longer than a test's.
pub fn bulk() {
    let guarded = setup(false);
    let e = alloc::next_epoch();
    let size = || match weighted(&[6, 6, if guarded { 0 } else { 3 }, if guarded { 0 } else { 1 }]) {
        0 => range(14, 70),
        1 => range(120, 290),
        2 => range(500, 1100),
        _ => range(4090, 4200),
    };
    match choose(3) {
        0 => {
            // A long list, and a channel made of it.
            let ty = some_ty();
            let n = size();
            summary(&format!("a list of {n} keyframes of type {ty}"));
            ev!("a list of {n} keyframes of type {ty}");
            let few: Vec<Val> = (0..7).map(|_| Val::gen(ty, &Pool::default())).collect();
            let at = |i: usize| (few[i % 7].clone(), (i * 37 % n) as f64);
            let mut l = with_ty!(ty, T => T::list_new());
            let mut want: Frames = Vec::new();
            for i in 0..n {
                let (v, t) = at(i);
                with_ty!(ty, T => T::list_push(&mut l, T::frame_new(give(&v), t)));
                want.push((v, t));
            }
            for i in [0, n / 2, n - 1] {
                let (v, t) = (few[i % 7].clone(), 1e6 + i as f64);
                with_ty!(ty, T => T::list_set(&mut l, i, T::frame_new(give(&v), t)));
                want[i] = (v, t);
            }
            let list = Thing::List(ty, l, want.clone());
            list.check(C13);
            nontrivial();
            if chance(1, 3) {
                list.release();
            } else {
                let p = with_ty!(ty, T => T::chan_new(l));
                let want = sorted(ty, &want);
                check_chan(C13, "a long channel", ty, p, &want, false);
                check_chan(C13, "a long channel", ty, p, &want, true);
                Thing::Chan(ty, p, want).release();
            }
            probe(if n > 4000 { "list of more than 4000" } else if n > 255 { "list of more than 255" } else { "list of up to 255" });
        }
        1 => {
            // Long texts, made of pieces of every width.
            let n = size() * [1, 17][choose(2)];
            summary(&format!("texts of {n} characters"));
            ev!("texts of {n} characters");
            let pieces = ["a", "é", "漢", "🦀", "\u{0}", "z\u{301}"];
            let (a, b) = (choose(6), choose(6));
            let s: String = (0..n).map(|i| pieces[if i % 64 == 63 { a } else { b }]).collect();
            let narrow = |s: &String| text::copy_utf8(Slice { ptr: s.as_ptr(), len: s.len() });
            let wide = |s: &String| {
                let t: Vec<u16> = s.encode_utf16().collect();
                text::copy_utf16(Slice { ptr: t.as_ptr() as *const u8, len: t.len() })
            };
            let v = Val::One(One::String(s.clone()));
            let mut made = vec![Thing::Value(narrow(&s), v.clone()), Thing::Value(wide(&s), v.clone())];
            for t in &made {
                t.check(C13);
            }
            nontrivial();
            made.push(Thing::State(String::state_new(narrow(&s)), v.clone()));
            made.push(Thing::Frame(String::frame_new(wide(&s), 4.5), v.clone(), 4.5));
            for t in &made {
                t.check(BOTH);
            }
            if let Thing::State(p, want) = &mut made[2] {
                let other = s.chars().rev().collect::<String>();
                String::state_set(*p, if chance(1, 2) { narrow(&other) } else { wide(&other) });
                *want = Val::One(One::String(other));
            }
            for t in &made {
                t.check(BOTH);
            }
            while !made.is_empty() {
                made.swap_remove(choose(made.len())).release();
            }
            probe(if n > 4000 { "text of more than 4000" } else if n > 255 { "text of more than 255" } else { "text of up to 255" });
        }
        _ => {
            // Many objects.
            let n = size() / 2 + 1;
            summary(&format!("{n} objects"));
            ev!("{n} objects");
            let b = realm::new(choose(2) as u8);
            let c = ball::register(b);
            let ids: Vec<P> = BALL_IDS.iter().map(|f| f(ball::states(c))).collect();
            let mut objs: Vec<(P, u64)> = Vec::new();
            let check = |objs: &Vec<(P, u64)>| {
                let h = ball::handle(c);
                let l = contract::objects(realm::contract_data(b, h));
                let size = std::mem::size_of::<tp_client::object::c_api::ObjectHandle>();
                let mut got: Vec<_> = (0..l.len).map(|i| raw_obj(ObjectHandle::peek((l.ptr as usize + i * size) as P))).collect();
                let mut want: Vec<_> = objs.iter().map(|o| raw_obj(ObjectHandle::peek(o.0))).collect();
                got.sort();
                want.sort();
                ensure_for!(C13, got == want, "objects", "a contract of {} objects lists {}", want.len(), got.len());
                contract::objects_drop(l);
                contract::handle_drop(h);
                for (o, k) in objs {
                    for (id, ty, v) in [(ids[0], 9, Val::One(One::F32(*k as f32))), (ids[5], 5, Val::One(One::I16(!*k as i16))), (ids[9], 3, Val::One(One::U64(*k << 20)))] {
                        with_ty!(ty, T => {
                            let h = T::bind_state(b, id, *o);
                            check_val(C13, "a state of one of many objects", T::state_value(T::realm_state(b, h)), &v);
                            T::state_handle_drop(h);
                        });
                    }
                }
            };
            let mut k = 0u64;
            for round in 0..2 {
                for _ in 0..n / (1 + round) {
                    k += 1;
                    let o = ball::object_create(b, c, k as f32, 0.5, -0.5, 1, 2, !k as i16, 1.0, 1.0, 1.0, k << 20);
                    objs.push((o, k));
                }
                check(&objs);
                nontrivial();
                if round == 0 {
                    let how = choose(3);
                    let mut i = 0;
                    let all = std::mem::take(&mut objs);
                    for o in all {
                        i += 1;
                        if how == 0 || how == 1 && i % 3 > 0 || how == 2 && i * 2 > n {
                            ball::object_remove(b, o.0);
                        } else {
                            objs.push(o);
                        }
                    }
                    check(&objs);
                }
            }
            if chance(1, 2) {
                ball::unregister(b, ball::handle(c));
            }
            for id in BALL_TYPES.iter().zip(ids) {
                with_ty!(*id.0, T => T::state_id_drop(id.1));
            }
            for o in objs {
                object::handle_drop(o.0);
            }
            if chance(1, 2) {
                ball::drop(c);
                realm::drop(b);
            } else {
                realm::drop(b);
                ball::drop(c);
            }
            probe(if n > 255 { "more than 255 objects" } else { "up to 255 objects" });
        }
    }
    alloc::check_integrity();
    check_leaks(e, "after everything was released");
}
