//! Saving realms on a simulated disk and loading what is left of them.
use crate::format::{self, File, Value};
use crate::types::*;
use crate::val::*;
use dsim::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use tp_serialize::{DeserializerBuilder, Serializer};

const SAVE: &[&str] = &["C15"];
const DAMAGE: &[&str] = &["C16"];

type KindRef = &'static dyn Kind;
pub struct Realm {
    base: Baseline,
    cons: Vec<(KindRef, ContractDataHandle)>,
}

// --------------------------------------------------------------- what it is

/// The content of a realm, with references by position.
#[derive(Clone, Default)]
pub struct Graph {
    cons: Vec<String>,
    objs: Vec<(usize, Vec<Slot>)>,
}
#[derive(Clone, Hash)]
enum Slot {
    Plain(String),
    Obj(Option<usize>),
    Con(Option<usize>),
}
fn con_name(k: KindRef) -> String {
    let id = k.id();
    format!("{} {:?} {:?} {:?}", id.name, id.version, k.names(), k.types())
}
/// A value as stored: zero has no sign there.
fn plain(v: &Val) -> String {
    match v {
        Val::One(One::F32(x)) => format!("F32 {:08x}", if *x == 0.0 { 0 } else { x.to_bits() }),
        Val::One(One::F64(x)) => format!("F64 {:016x}", if *x == 0.0 { 0 } else { x.to_bits() }),
        v => format!("{v:?}"),
    }
}
impl Graph {
    /// Reads the realm through its public interface. Contracts other than
    /// `cons` are left out. An error says what isn't consistent.
    fn of(base: &Baseline, cons: &[(KindRef, ContractDataHandle)], all: bool) -> Result<Graph, String> {
        let mut g = Graph::default();
        let mut number: HashMap<ObjectHandle, usize> = HashMap::new();
        let mut todo = Vec::new();
        for (i, (k, c)) in cons.iter().enumerate() {
            let data = base.contract_data(*c).map_err(|e| format!("contract {} isn't there: {e}", k.id().name))?;
            if data.id() != k.id() {
                return Err(format!("contract {:?} has the identity {:?}", k.id(), data.id()));
            }
            g.cons.push(con_name(*k));
            let mut objs: Vec<ObjectHandle> = data.objects().iter().copied().collect();
            objs.sort_by_key(|o| raw_obj(*o));
            for o in objs {
                let got = base.object(o).map_err(|e| format!("an object of {} isn't there: {e}", k.id().name))?.contract();
                if got != *c {
                    return Err(format!("an object of {} belongs to another contract", k.id().name));
                }
                if number.insert(o, number.len()).is_some() {
                    return Err("two contracts have the same object".into());
                }
                todo.push((i, *k, *c, o));
            }
        }
        let total = base.iter_objects().count();
        if all && total != todo.len() {
            return Err(format!("{total} objects exist but the contracts have {}", todo.len()));
        }
        for (i, k, c, o) in todo {
            let vals = k.read(base, c, o).map_err(|e| format!("an object of {} lacks a property: {e}", k.id().name))?;
            let types: Vec<usize> = vals.iter().map(|v| v.ty()).collect();
            if types != k.types() {
                return Err(format!("an object of {} has properties of types {types:?}", k.id().name));
            }
            let slots = vals
                .iter()
                .map(|v| match v {
                    Val::One(One::ObjectHandle(h)) => Slot::Obj(number.get(h).copied()),
                    Val::One(One::ContractDataHandle(h)) => Slot::Con(cons.iter().position(|x| x.1 == *h)),
                    v => Slot::Plain(plain(v)),
                })
                .collect();
            g.objs.push((i, slots));
        }
        Ok(g)
    }
    fn closed(&self) -> bool {
        self.objs.iter().all(|o| o.1.iter().all(|s| !matches!(s, Slot::Obj(None) | Slot::Con(None))))
    }
    /// The same for graphs that differ only in the order of objects and
    /// contracts. Objects that only their place in a cycle tells apart are told
    /// apart as far as refining by neighbours goes.
    fn shape(&self) -> (Vec<String>, Vec<u64>) {
        let hash = |x: &dyn Fn(&mut DefaultHasher)| {
            let mut h = DefaultHasher::new();
            x(&mut h);
            h.finish()
        };
        let mut colour: Vec<u64> = self
            .objs
            .iter()
            .map(|(c, slots)| {
                hash(&|h| {
                    self.cons[*c].hash(h);
                    for s in slots {
                        match s {
                            Slot::Plain(p) => p.hash(h),
                            Slot::Obj(o) => o.is_some().hash(h),
                            Slot::Con(c) => c.map(|c| &self.cons[c]).hash(h),
                        }
                    }
                })
            })
            .collect();
        for _ in 0..6 {
            let mut into: Vec<Vec<(usize, u64)>> = vec![Vec::new(); self.objs.len()];
            for (i, (_, slots)) in self.objs.iter().enumerate() {
                for (n, s) in slots.iter().enumerate() {
                    if let Slot::Obj(Some(o)) = s {
                        into[*o].push((n, colour[i]));
                    }
                }
            }
            colour = (0..self.objs.len())
                .map(|i| {
                    into[i].sort();
                    hash(&|h| {
                        colour[i].hash(h);
                        for s in &self.objs[i].1 {
                            if let Slot::Obj(Some(o)) = s {
                                colour[*o].hash(h);
                                (*o == i).hash(h);
                            }
                        }
                        into[i].hash(h);
                    })
                })
                .collect();
        }
        colour.sort();
        let mut cons = self.cons.clone();
        cons.sort();
        (cons, colour)
    }
    fn tell(&self) -> String {
        let mut n: BTreeMap<&str, usize> = self.cons.iter().map(|c| (c.as_str(), 0)).collect();
        for o in &self.objs {
            *n.get_mut(self.cons[o.0].as_str()).unwrap() += 1;
        }
        n.iter().map(|(c, n)| format!("{}×{n}", c.split(' ').next().unwrap())).collect::<Vec<_>>().join(" ")
    }
    /// The first thing that differs, for the report.
    fn difference(&self, o: &Graph) -> String {
        if self.tell() != o.tell() {
            return format!("saved {} but loaded {}", self.tell(), o.tell());
        }
        let list = |g: &Graph| {
            let mut v: Vec<String> = g
                .objs
                .iter()
                .map(|(c, s)| {
                    let s: Vec<String> = s
                        .iter()
                        .map(|s| match s {
                            Slot::Plain(p) => p.clone(),
                            Slot::Obj(None) | Slot::Con(None) => "dangling".into(),
                            Slot::Obj(Some(o)) => format!("→{}", g.cons[g.objs[*o].0].split(' ').next().unwrap()),
                            Slot::Con(Some(c)) => format!("={}", g.cons[*c].split(' ').next().unwrap()),
                        })
                        .collect();
                    format!("{}: {}", g.cons[*c].split(' ').next().unwrap(), s.join(", "))
                })
                .collect();
            v.sort();
            v
        };
        let (a, b) = (list(self), list(o));
        match a.iter().zip(&b).find(|(x, y)| x != y) {
            Some((x, y)) => format!("saved [{x}] but loaded [{y}]"),
            None => "references lead to other objects than they did".into(),
        }
    }
}

// ---------------------------------------------------------------- histories

fn name(k: KindRef) -> &'static str {
    k.id().name
}
impl Realm {
    fn new(kinds: &[KindRef]) -> Realm {
        let mut r = Realm { base: Baseline::new(kind()), cons: Vec::new() };
        for k in kinds {
            // Handles don't all start from the beginning.
            if chance(1, 4) {
                let c = Fill::register(&mut r.base);
                if chance(1, 2) {
                    r.cons.push((*k, k.register(&mut r.base).expect("register")));
                    Fill::drop(&mut r.base, c);
                    continue;
                }
                Fill::drop(&mut r.base, c);
            }
            r.cons.push((*k, k.register(&mut r.base).expect("register")));
        }
        r
    }
    fn objects(&self) -> Vec<(usize, ObjectHandle)> {
        let mut v = Vec::new();
        for (i, (_, c)) in self.cons.iter().enumerate() {
            let mut os: Vec<_> = self.base.contract_data(*c).expect("contract").objects().iter().copied().collect();
            os.sort_by_key(|o| raw_obj(*o));
            v.extend(os.into_iter().map(|o| (i, o)));
        }
        v
    }
    fn pool(&self) -> Pool {
        Pool { objs: self.objects().iter().map(|o| o.1).collect(), cons: self.cons.iter().map(|c| c.1).collect() }
    }
    fn vals(&self, i: usize, pool: &Pool, serial: u64) -> Vec<Val> {
        let k = self.cons[i].0;
        k.types()
            .iter()
            .zip(k.names())
            .map(|(t, n)| match n {
                "id" if *t == U64 => Val::One(One::U64(serial)),
                _ => Val::gen(*t, pool),
            })
            .collect()
    }
    /// More objects than 16 bits can count, or more properties.
    fn crowd(&mut self) {
        let at: Vec<usize> = (0..self.cons.len()).filter(|i| !self.cons[*i].0.types().contains(&OBJ)).collect();
        if at.is_empty() {
            return;
        }
        let i = pick(&at);
        let (k, c) = self.cons[i];
        let types = k.types();
        if types.iter().any(|t| *t >= 14) || !k.channels().is_empty() {
            return;
        }
        let n = 65_536 / if chance(1, 2) { types.len().max(1) } else { 1 } + range(1, 40);
        let vals = self.vals(i, &self.pool(), 0);
        for x in 0..n {
            let vals: Vec<Val> = vals
                .iter()
                .map(|v| match v {
                    Val::One(One::U64(_)) => Val::One(One::U64(x as u64)),
                    Val::One(One::Bool(_)) => Val::One(One::Bool(x % 3 == 0)),
                    Val::One(One::String(_)) => Val::One(One::String(x.to_string())),
                    v => v.clone(),
                })
                .collect();
            k.create(&mut self.base, c, &vals).expect("create");
        }
        fault("a crowd");
        ev!("{n} objects of {}", name(k));
    }
    /// Some things happen in the realm. With `tidy`, no reference is left
    /// dangling.
    fn live(&mut self, steps: usize, tidy: bool, serial: &mut u64) {
        for _ in 0..steps {
            let objs = self.objects();
            match weighted(&[5, 3, 2]) {
                0 => {
                    let i = choose(self.cons.len());
                    let n = if chance(1, 12) { range(5, 60) } else { 1 };
                    for _ in 0..n {
                        let pool = self.pool();
                        let (k, c) = self.cons[i];
                        // The first object that refers to objects needs one.
                        let anchor = if pool.objs.is_empty() && k.types().contains(&OBJ) {
                            match self.cons.iter().position(|x| !x.0.types().contains(&OBJ)) {
                                Some(j) => {
                                    let vals = self.vals(j, &pool, 0);
                                    let (k, c) = self.cons[j];
                                    Some(k.create(&mut self.base, c, &vals).expect("create"))
                                }
                                None => None,
                            }
                        } else {
                            None
                        };
                        let none = pool.objs.is_empty() && anchor.is_none();
                        let pool = self.pool();
                        *serial += 1;
                        let vals = self.vals(i, &pool, *serial);
                        let o = k.create(&mut self.base, c, &vals).expect("create");
                        if none {
                            // Nothing else to refer to: itself.
                            for (n, t) in k.types().iter().enumerate() {
                                if *t == OBJ {
                                    k.set(&mut self.base, c, o, n, &Val::One(One::ObjectHandle(o))).expect("set");
                                }
                            }
                        }
                    }
                    ev!("{} object(s) of {}", n, name(self.cons[i].0));
                }
                1 => {
                    if objs.is_empty() {
                        continue;
                    }
                    let (i, o) = pick(&objs);
                    let (k, c) = self.cons[i];
                    let types = k.types();
                    if types.is_empty() {
                        continue;
                    }
                    let n = choose(types.len());
                    if k.names()[n] == "id" {
                        continue;
                    }
                    let v = Val::gen(types[n], &self.pool());
                    k.set(&mut self.base, c, o, n, &v).expect("set");
                    ev!("{}.{} of an object := {}", name(k), k.names()[n], show(&v));
                }
                _ => {
                    if objs.is_empty() {
                        continue;
                    }
                    let (i, o) = pick(&objs);
                    let left: Vec<ObjectHandle> = objs.iter().map(|x| x.1).filter(|x| *x != o).collect();
                    if tidy {
                        if left.is_empty() {
                            continue;
                        }
                        for (j, p) in &objs {
                            let (k, c) = self.cons[*j];
                            let vals = k.read(&self.base, c, *p).expect("read");
                            for (n, v) in vals.iter().enumerate() {
                                if matches!(v, Val::One(One::ObjectHandle(h)) if *h == o) {
                                    k.set(&mut self.base, c, *p, n, &Val::One(One::ObjectHandle(pick(&left)))).expect("set");
                                }
                            }
                        }
                    }
                    self.cons[i].0.remove(&mut self.base, o).expect("remove");
                    ev!("an object of {} removed", name(self.cons[i].0));
                }
            }
        }
    }
}
/// A contract that is only there for a while.
struct Fill;
impl Fill {
    fn register(b: &mut Baseline) -> ContractDataHandle {
        let k = FILLER[0];
        let c = k.register(b).expect("register");
        for _ in 0..choose(3) {
            k.create(b, c, &[Val::One(One::U64(1))]).expect("create");
        }
        c
    }
    fn drop(b: &mut Baseline, c: ContractDataHandle) {
        FILLER[0].unregister(b, c).expect("unregister")
    }
}
fn kind() -> BaselineKind {
    pick(&[BaselineKind::Main, BaselineKind::Fork])
}
fn shuffled<T: Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    for i in 0..v.len() {
        let j = i + choose(v.len() - i);
        v.swap(i, j);
    }
    v
}
fn some<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().filter(|_| chance(3, 4)).cloned().collect()
}

// ------------------------------------------------------------ saving, loading

fn same(a: &(KindRef, ContractDataHandle), b: &(KindRef, ContractDataHandle)) -> bool {
    a.1 == b.1 && a.0.id() == b.0.id()
}

enum Saved {
    /// With the contracts that were accepted.
    Bytes(Vec<u8>, Vec<(KindRef, ContractDataHandle)>),
    Refused(String),
    Died(String),
}
/// Saves these contracts of the realm. With `lenient`, a contract that is
/// refused is left out; else the save is given up.
fn save(r: &Realm, cons: &[(KindRef, ContractDataHandle)], lenient: bool) -> Saved {
    let again = chance(1, 10);
    let out = catching(|| -> Result<_, String> {
        let mut s = Serializer::new(flatbuffers::FlatBufferBuilder::new(), &r.base);
        let mut kept = Vec::new();
        for (n, (k, c)) in cons.iter().enumerate() {
            match k.save(&mut s, *c) {
                Ok(()) => kept.push((*k, *c)),
                Err(e) if lenient => ev!("saving {} refused: {}", name(*k), short(&format!("{e:?}"))),
                Err(e) => return Err(format!("{}: {e:?}", name(*k))),
            }
            if again && n == 0 {
                // Refused or not, it mustn't do harm.
                let e = k.save(&mut s, *c).is_err();
                probe(if e { "saving a contract again refused" } else { "saving a contract again accepted" });
            }
        }
        Ok((s.try_finish().map_err(|e| format!("{e:?}"))?.finished_data().to_vec(), kept))
    });
    match out {
        Ok(Ok((b, kept))) => Saved::Bytes(b, kept),
        Ok(Err(e)) => Saved::Refused(e),
        Err(p) => Saved::Died(p),
    }
}
enum Loaded {
    Realm(Realm),
    Refused(String),
    Died(String),
}
struct Load<'a> {
    /// Contracts to ask for, in this order.
    kinds: &'a [KindRef],
    /// Leave out the contracts that aren't found, rather than give up.
    lenient: bool,
    /// Called for each contract that was found.
    found: &'a mut dyn FnMut(KindRef),
}
fn load(bytes: &[u8], how: Load) -> Loaded {
    let Load { kinds, lenient, found } = how;
    let out = catching(|| -> Result<Realm, String> {
        let mut d = DeserializerBuilder::new(bytes, kind()).map_err(|e| format!("{e:?}"))?;
        let mut cons = Vec::new();
        for k in kinds {
            match k.find(&mut d) {
                Ok(c) => {
                    found(*k);
                    cons.push((*k, c))
                }
                Err(_) if lenient => {}
                Err(e) => return Err(format!("{}: {e:?}", name(*k))),
            }
        }
        let mut d = d.finish();
        for (k, c) in shuffled(&cons) {
            k.load(&mut d, c).map_err(|e| format!("{}: {e:?}", name(k)))?;
        }
        Ok(Realm { base: d.finish().map_err(|e| format!("{e:?}"))?, cons })
    });
    match out {
        Ok(Ok(r)) => Loaded::Realm(r),
        Ok(Err(e)) => Loaded::Refused(e),
        Err(p) => Loaded::Died(p),
    }
}
fn short(s: &str) -> String {
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t.push('…')
    }
    t.replace('\n', " ")
}
fn names(c: &[(KindRef, ContractDataHandle)]) -> String {
    c.iter().map(|c| name(c.0)).collect::<Vec<_>>().join(" ")
}

fn start() {
    bimap::order_by(choose);
}

/// Realms are saved and loaded, and live on from what was loaded.
pub fn generations() {
    start();
    let mut kinds = some(&shuffled(KINDS));
    if kinds.is_empty() {
        kinds.push(KINDS[0]);
    }
    for k in UNSTORABLE {
        if chance(1, 8) {
            kinds.push(*k);
        }
    }
    let mut realm = Realm::new(&kinds);
    let mut serial = 0;
    let mut history: Vec<Vec<u8>> = Vec::new();
    let (gens, mut loads) = (range(1, 4), 0);
    for _ in 0..gens {
        let tidy = chance(4, 5);
        let steps = if chance(1, 10) { range(20, 60) } else { range(0, 16) };
        realm.live(steps, tidy, &mut serial);
        if chance(1, 1500) {
            realm.crowd();
            realm.live(range(2, 12), tidy, &mut serial);
        }
        let chosen = if chance(2, 3) { shuffled(&realm.cons) } else { some(&shuffled(&realm.cons)) };
        let listy = |c: &(KindRef, ContractDataHandle)| c.0.types().iter().any(|t| *t >= 14);
        let mut asked = chosen.clone();
        let lenient = chance(1, 3);
        // Somebody may ask for a contract that is gone.
        if let Some(k) = KINDS.iter().find(|k| realm.cons.iter().all(|c| c.0.id() != k.id())).filter(|_| chance(1, 6)) {
            let c = k.register(&mut realm.base).expect("register");
            k.unregister(&mut realm.base, c).expect("unregister");
            let at = choose(asked.len() + 1);
            asked.insert(at, (*k, c));
            fault("saving a contract that is gone");
        }
        // Or for a contract with the handle that it has in another realm.
        if let Some((k, _)) = asked.first().copied().filter(|_| chance(1, 12)) {
            if let Some(o) = realm.cons.iter().find(|o| o.0.id() != k.id()) {
                let at = choose(asked.len() + 1);
                asked.insert(at, (k, o.1));
                fault("saving a contract with the handle of another one");
            }
        }
        let graph = |cons: &[(KindRef, ContractDataHandle)]| match Graph::of(&realm.base, cons, false) {
            Ok(g) => g,
            Err(e) => broken(SAVE, "realm inconsistent", &e),
        };
        let good: Vec<_> = asked.iter().filter(|c| !listy(c) && chosen.iter().any(|x| same(x, c))).copied().collect();
        let mut saved = graph(&good);
        let can = saved.closed() && (lenient || good.len() == asked.len());
        let bytes = match save(&realm, &asked, lenient) {
            Saved::Bytes(b, kept) => {
                if !lenient && kept.len() != good.len() || kept.iter().any(|k| good.iter().all(|g| !same(g, k))) {
                    broken(SAVE, "contract saved that can't be", &format!("asked for {}, good for {}, saved {}", names(&asked), names(&good), names(&kept)));
                }
                if let Some(k) = good.iter().find(|g| kept.iter().all(|k| !same(g, k))) {
                    broken(SAVE, "save refused", &format!("saving {} failed", name(k.0)));
                }
                saved = graph(&kept);
                b
            }
            Saved::Refused(e) => {
                ev!("saving [{}] refused: {}", saved.tell(), short(&e));
                probe("save refused");
                if can {
                    broken(SAVE, "save refused", &format!("saving {} failed: {}", saved.tell(), short(&e)));
                }
                continue;
            }
            Saved::Died(p) => {
                let what = if can { "save died" } else { "save of open realm died" };
                broken(SAVE, what, &format!("saving {} panicked: {p}", saved.tell()))
            }
        };
        ev!("saved [{}] in {} bytes", saved.tell(), bytes.len());
        if !can {
            broken(SAVE, "open realm saved", &format!("a realm was saved although it can't be complete: {}", saved.tell()));
        }
        let chosen = good;
        // The disk: some of the bytes may not get there before a crash.
        if chance(1, 2) {
            let cut = match choose(4) {
                0 => range(0, bytes.len()),
                1 => bytes.len() - range(0, bytes.len().min(8)),
                2 => range(0, bytes.len() / 64) * 64,
                _ => range(0, bytes.len().min(64)),
            };
            fault("save cut short by a crash");
            let found = &mut |_| {};
            let all: Vec<KindRef> = shuffled(&chosen).iter().map(|c| c.0).collect();
            match load(&bytes[..cut], Load { kinds: &all, lenient: false, found }) {
                Loaded::Refused(e) => ev!("only {cut} bytes stored; loading refused: {}", short(&e)),
                Loaded::Died(p) => broken(SAVE, "load died", &format!("loading {cut} of {} bytes panicked: {p}", bytes.len())),
                Loaded::Realm(r) => match Graph::of(&r.base, &r.cons, true) {
                    Ok(g) if g.shape() == saved.shape() => {
                        probe("prefix is complete");
                        ev!("only {cut} bytes stored; they were enough")
                    }
                    Ok(g) => broken(
                        SAVE,
                        "partial save loaded",
                        &format!("{cut} of {} bytes loaded as another realm: {}", bytes.len(), saved.difference(&g)),
                    ),
                    Err(e) => broken(SAVE, "loaded realm inconsistent", &e),
                },
            }
        }
        history.push(bytes.clone());
        // Load all of it, or some.
        let wanted = if chance(2, 3) { shuffled(&chosen) } else { some(&shuffled(&chosen)) };
        let expect = Graph::of(&realm.base, &wanted, false).unwrap_or_default();
        let movers = expect.objs.iter().any(|o| expect.cons[o.0].starts_with("sim.moving"));
        let kinds: Vec<KindRef> = wanted.iter().map(|c| c.0).collect();
        let found = &mut |_| {};
        match load(&bytes, Load { kinds: &kinds, lenient: false, found }) {
            Loaded::Died(p) => broken(SAVE, "load died", &format!("loading {} panicked: {p}", expect.tell())),
            Loaded::Refused(e) => {
                ev!("loading [{}] refused: {}", names(&wanted), short(&e));
                if expect.closed() && !movers {
                    broken(SAVE, "load refused", &format!("loading {} failed: {}", expect.tell(), short(&e)));
                }
                probe("partial load refused");
            }
            Loaded::Realm(r) => {
                let g = match Graph::of(&r.base, &r.cons, true) {
                    Ok(g) => g,
                    Err(e) => broken(SAVE, "loaded realm inconsistent", &e),
                };
                ev!("loaded [{}]", g.tell());
                if movers {
                    broken(SAVE, "incomplete realm loaded", "an object was loaded without its channels");
                }
                if !expect.closed() {
                    broken(SAVE, "incomplete realm loaded", &format!("loaded {} without what it refers to", g.tell()));
                }
                if g.shape() != expect.shape() {
                    broken(SAVE, "another realm loaded", &expect.difference(&g));
                }
                if !g.objs.is_empty() {
                    nontrivial();
                }
                loads += 1;
                if chance(2, 3) {
                    let left: Vec<(KindRef, ContractDataHandle)> = r.cons.clone();
                    realm = Realm { base: r.base, cons: left };
                    if realm.cons.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    summary(&format!("{gens} saves, {loads} loads"));
}

// ------------------------------------------------------------------- damage

fn hurt_bytes(b: &mut Vec<u8>, old: &[Vec<u8>]) {
    let n = b.len();
    let sector = pick(&[16usize, 4, 64, 512]);
    match choose(11) {
        0 => {
            if n > 0 {
                let i = choose(n);
                b[i] ^= 1 << choose(8);
                fault("bit flipped");
            }
        }
        1 => {
            if n > 0 {
                let i = choose(n);
                b[i] = pick(&[0, 255, 1, 127, 128, choose(256) as u8]);
                fault("byte changed");
            }
        }
        2 => {
            b.truncate(choose(n + 1));
            fault("cut short");
        }
        3 => {
            let at = range(0, n / sector) * sector;
            for x in b.iter_mut().skip(at).take(sector) {
                *x = 0;
            }
            fault("sector zeroed");
        }
        4 => {
            let (from, to) = (range(0, n / sector) * sector, range(0, n / sector) * sector);
            for i in 0..sector {
                if from + i < n && to + i < n {
                    b[to + i] = b[from + i];
                }
            }
            fault("sector repeated");
        }
        5 => {
            let o = &old[choose(old.len())];
            let at = choose(n.max(o.len()) / 4 + 1) * 4;
            let mut m: Vec<u8> = b.iter().take(at).copied().collect();
            m.extend(o.iter().skip(m.len()));
            if chance(1, 2) {
                // As long as the newer one.
                m.truncate(n);
            }
            *b = m;
            fault("newer beginning, older end");
        }
        6 => {
            let o = &old[choose(old.len())];
            let at = range(0, n / sector) * sector;
            for i in at..(at + sector).min(n).min(o.len()) {
                b[i] = o[i];
            }
            fault("write of a sector lost");
        }
        7 | 8 => {
            if n >= 8 {
                let at = choose(n / 4) * 4;
                let v: u32 = match choose(8) {
                    0 => 0,
                    1 => 1,
                    2 => u32::MAX,
                    3 => n as u32,
                    4 => i32::MIN as u32,
                    5 => choose(64) as u32,
                    6 => (n - at) as u32,
                    _ => choose(1 << 16) as u32,
                };
                let v = if chance(1, 3) { u32::from_le_bytes(b[at..at + 4].try_into().unwrap()).wrapping_add(pick(&[1, 4, 8, !0, !3])) } else { v };
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
                fault("word changed");
            }
        }
        9 => {
            for _ in 0..range(1, 64) {
                b.push(if chance(1, 2) { 0 } else { choose(256) as u8 });
            }
            fault("garbage at the end");
        }
        _ => {
            if n >= 8 {
                let (i, j) = (choose(n / 4) * 4, choose(n / 4) * 4);
                for k in 0..4 {
                    b.swap(i + k, j + k);
                }
                fault("words exchanged");
            }
        }
    }
}
fn index(len: usize) -> u32 {
    match choose(6) {
        0 => len as u32,
        1 => len as u32 + 1,
        2 => u32::MAX,
        3 => 65535,
        _ => choose(len.max(1)) as u32,
    }
}
fn text(s: &str) -> String {
    match choose(6) {
        0 => String::new(),
        1 => format!("{s}2"),
        2 => s.chars().skip(1).collect(),
        3 => s.to_uppercase(),
        4 => format!("{s}\0"),
        _ => "zzz".into(),
    }
}
/// Changes the content where only its meaning suffers.
fn hurt_content(f: &mut File) {
    let nstates = f.states.as_ref().map_or(0, |s| s.len());
    let nobjs = f.objects.as_ref().map_or(0, |s| s.len());
    let ncons = f.contracts.as_ref().map_or(0, |s| s.len());
    let pick_con = |f: &mut File| -> Option<usize> {
        let n = f.contracts.as_ref()?.len();
        (n > 0).then(|| choose(n))
    };
    match choose(20) {
        0 | 1 => {
            if let Some(o) = f.objects.as_mut().filter(|o| !o.is_empty()) {
                let i = choose(o.len());
                if let Some(s) = o[i].states.as_mut().filter(|s| !s.is_empty()) {
                    let n = choose(s.len());
                    s[n] = index(nstates);
                    fault("property index changed");
                }
            }
        }
        2 => {
            if let Some(o) = f.objects.as_mut().filter(|o| !o.is_empty()) {
                let i = choose(o.len());
                if let Some(s) = o[i].states.as_mut() {
                    if chance(1, 2) || s.is_empty() {
                        s.push(index(nstates));
                    } else {
                        let n = choose(s.len());
                        s.remove(n);
                    }
                    fault("number of properties changed");
                }
            }
        }
        3 => {
            if let Some(o) = f.objects.as_mut().filter(|o| !o.is_empty()) {
                let i = choose(o.len());
                o[i].contract = Some(index(ncons) as u16);
                fault("object given to another contract");
            }
        }
        4 => {
            if let Some(o) = f.objects.as_mut().filter(|o| !o.is_empty()) {
                let i = choose(o.len());
                if chance(1, 2) {
                    o[i].contract = None
                } else {
                    o[i].states = None
                }
                fault("part of an object missing");
            }
        }
        5 => {
            if let Some(o) = f.objects.as_mut().filter(|o| !o.is_empty()) {
                let i = choose(o.len());
                if chance(1, 2) {
                    o.remove(i);
                    fault("object missing");
                } else {
                    let x = o[i].clone();
                    o.push(x);
                    fault("object repeated");
                }
            }
        }
        6 | 7 => {
            if let Some(s) = f.states.as_mut().filter(|s| !s.is_empty()) {
                let i = choose(s.len());
                if s[i].ty == format::T_OBJ || chance(1, 3) {
                    s[i].value = Value::Num(index(nobjs) as u64, format::SIZES[s[i].ty as usize % 15]);
                } else if s[i].ty == format::T_CON {
                    s[i].value = Value::Num(index(ncons) as u16 as u64, 2);
                } else {
                    s[i].value = Value::Num(bits64(), format::SIZES[s[i].ty as usize % 15]);
                }
                if s[i].ty == format::T_STR {
                    s[i].value = Value::Text(None);
                }
                fault("value changed");
            }
        }
        8 => {
            // A string property without a string.
            if let Some(s) = f.states.as_mut() {
                let at: Vec<usize> = (0..s.len()).filter(|i| s[*i].ty == format::T_STR).collect();
                if !at.is_empty() {
                    s[pick(&at)].value = Value::Text(None);
                    fault("string missing");
                }
            }
        }
        9 => {
            if let Some(s) = f.states.as_mut().filter(|s| !s.is_empty()) {
                let i = choose(s.len());
                s[i].ty = pick(&[0, 15, 255, 16, choose(256) as u8, range(1, 14) as u8, range(1, 14) as u8]);
                if chance(1, 2) {
                    let ty = s[i].ty;
                    if let (Value::Num(v, n), 1..=14) = (&mut s[i].value, ty) {
                        *n = format::SIZES[ty as usize];
                        *v &= 0xffff;
                    }
                }
                fault("type of a value changed");
            }
        }
        10 => {
            if let Some(s) = f.states.as_mut().filter(|s| !s.is_empty()) {
                let i = choose(s.len());
                if chance(1, 2) {
                    s[i].value = Value::Absent;
                } else {
                    s.remove(i);
                }
                fault("value missing");
            }
        }
        11 => {
            match choose(3) {
                0 => f.contracts = None,
                1 => f.states = None,
                _ => f.objects = None,
            }
            fault("part of the file missing");
        }
        12 => {
            f.mark = pick(&[None, Some(*b"TPF2"), Some(*b"\0\0\0\0"), Some(*b"tpf1"), Some(*b"PNG\n")]);
            fault("mark of the format changed");
        }
        13 => {
            if let Some(i) = pick_con(f) {
                let c = f.contracts.as_mut().unwrap();
                if chance(1, 2) {
                    c.remove(i);
                    fault("contract missing");
                } else {
                    let x = c[i].clone();
                    let at = choose(c.len() + 1);
                    c.insert(at, x);
                    fault("contract repeated");
                }
            }
        }
        14 | 15 => {
            if let Some(i) = pick_con(f) {
                let c = &mut f.contracts.as_mut().unwrap()[i];
                match (choose(4), c.id.as_mut()) {
                    (0, _) | (_, None) => c.id = None,
                    (1, Some(id)) => id.name = id.name.as_ref().filter(|_| chance(2, 3)).map(|n| text(n)),
                    (_, Some(id)) => {
                        let v = &mut id.version[choose(3)];
                        *v = v.wrapping_add(pick(&[1, 65535, 256]));
                    }
                }
                fault("identity of a contract changed");
            }
        }
        _ => {
            if let Some(i) = pick_con(f) {
                let c = &mut f.contracts.as_mut().unwrap()[i];
                let gone = chance(1, 8);
                match c.states.as_mut() {
                    Some(s) if !gone => match choose(6) {
                        0 => s.names = None,
                        1 => s.types = None,
                        2 => {
                            if let Some(t) = s.types.as_mut().filter(|t| !t.is_empty()) {
                                let n = choose(t.len());
                                t[n] = pick(&[range(0, 13) as u8, 14, 255, t[n].wrapping_add(1), t[n].wrapping_sub(1)]);
                            }
                        }
                        3 => {
                            if let Some(t) = s.names.as_mut().filter(|t| !t.is_empty()) {
                                let n = choose(t.len());
                                t[n] = text(&t[n]);
                            }
                        }
                        4 => {
                            let (a, b) = (s.names.as_mut(), s.types.as_mut());
                            let (cut, both) = (chance(1, 2), choose(3));
                            if let Some(a) = a.filter(|_| both != 1) {
                                if cut {
                                    a.pop();
                                } else {
                                    a.push("more".into());
                                }
                            }
                            if let Some(b) = b.filter(|_| both != 2) {
                                if cut {
                                    b.pop();
                                } else {
                                    b.push(range(0, 13) as u8);
                                }
                            }
                        }
                        _ => {
                            if let Some(t) = s.names.as_mut().filter(|t| t.len() > 1) {
                                let (i, j) = (choose(t.len()), choose(t.len()));
                                t.swap(i, j);
                            }
                        }
                    },
                    _ => c.states = None,
                }
                fault("properties of a contract changed");
            }
        }
    }
}

/// Is there an entry in the file that describes just this contract?
fn described(f: &File, k: KindRef) -> bool {
    let (id, names, types) = (k.id(), k.names(), k.types());
    f.contracts.as_ref().map_or(false, |cs| {
        cs.iter().any(|c| {
            let (Some(i), Some(s)) = (&c.id, &c.states) else { return false };
            let (Some(n), Some(t)) = (&s.names, &s.types) else { return false };
            i.name.as_deref() == Some(id.name)
                && (i.version[0], i.version[1], i.version[2]) == id.version
                && n.iter().map(|n| n.as_str()).eq(names.iter().copied())
                && t.iter().map(|t| *t as usize).eq(types.iter().copied())
        })
    })
}

fn entry(f: &File, k: KindRef) -> Option<usize> {
    let n = f.contracts.as_ref()?.len();
    (0..n).find(|i| {
        let one = File { contracts: Some(vec![f.contracts.as_ref().unwrap()[*i].clone()]), ..File::default() };
        described(&one, k)
    })
}
/// The realm that the file describes, as far as these contracts go; an error
/// says what is missing or doesn't fit.
fn meaning(f: &File, cons: &[(KindRef, ContractDataHandle)]) -> Result<Graph, String> {
    let mut g = Graph::default();
    let mut entries = Vec::new();
    for (k, _) in cons {
        entries.push(entry(f, *k).ok_or("a contract that isn't described")?);
        g.cons.push(con_name(*k));
    }
    let none = Vec::new();
    let objects = f.objects.as_ref().unwrap_or(&none);
    let of: Vec<Option<usize>> = objects.iter().map(|o| entries.iter().position(|e| Some(*e) == o.contract.map(usize::from))).collect();
    let mut number: HashMap<usize, usize> = HashMap::new();
    for (n, c) in of.iter().enumerate() {
        if c.is_some() {
            number.insert(n, number.len());
        }
    }
    let no_states = Vec::new();
    let states = f.states.as_ref().unwrap_or(&no_states);
    for (o, c) in objects.iter().zip(&of) {
        let Some(c) = *c else { continue };
        let types = cons[c].0.types();
        let got: &[u32] = o.states.as_deref().unwrap_or(&[]);
        if got.len() != types.len() {
            return Err("an object with the wrong number of properties".into());
        }
        let mut slots = Vec::new();
        for (s, ty) in got.iter().zip(&types) {
            let s = states.get(*s as usize).ok_or("an object with a property out of bounds")?;
            if s.ty as usize != ty + 1 {
                return Err("a property of the wrong type".into());
            }
            slots.push(match (&s.value, s.ty) {
                (Value::Num(v, _), format::T_OBJ) => Slot::Obj(Some(*number.get(&(*v as usize)).ok_or("a reference to an object that isn't there")?)),
                (Value::Num(v, _), format::T_CON) => {
                    Slot::Con(Some(entries.iter().position(|e| *e == *v as usize).ok_or("a reference to a contract that isn't there")?))
                }
                (Value::Num(v, _), t) => Slot::Plain(plain(&Val::One(match t {
                    1 => One::U8(*v as u8),
                    2 => One::U16(*v as u16),
                    3 => One::U32(*v as u32),
                    4 => One::U64(*v),
                    5 => One::I8(*v as i8),
                    6 => One::I16(*v as i16),
                    7 => One::I32(*v as i32),
                    8 => One::I64(*v as i64),
                    9 => One::Bool(*v != 0),
                    10 => One::F32(f32::from_bits(*v as u32)),
                    _ => One::F64(f64::from_bits(*v)),
                }))),
                (Value::Text(Some(x)), _) => Slot::Plain(plain(&Val::One(One::String(x.clone())))),
                (Value::Text(None), _) | (Value::Absent, _) => return Err("a property without a value".into()),
            });
        }
        g.objs.push((c, slots));
    }
    Ok(g)
}

/// Saved realms get damaged, or aren't what is asked for.
pub fn damage() {
    start();
    let mut kinds = some(&shuffled(KINDS));
    kinds.retain(|k| k.names() != ["id"]);
    if kinds.is_empty() {
        kinds.push(KINDS[0]);
    }
    let mut realm = Realm::new(&kinds);
    let mut serial = 0;
    let mut old: Vec<Vec<u8>> = Vec::new();
    for _ in 0..range(1, 2) {
        realm.live(range(1, 12), true, &mut serial);
        match save(&realm, &shuffled(&realm.cons), false) {
            Saved::Bytes(b, _) => old.push(b),
            Saved::Refused(e) => {
                probe(&format!("cut short: {}", &short(&e).chars().take(20).collect::<String>()));
                return;
            }
            Saved::Died(_) => {
                probe("cut short: save died");
                return;
            }
        }
    }
    let (mut refused, mut accepted) = (0, 0);
    for _ in 0..range(1, 8) {
        let mut bytes = old.last().unwrap().clone();
        match choose(8) {
            0 => {}
            1..=3 => {
                if let Some(mut f) = format::read(&bytes) {
                    for _ in 0..range(1, 3) {
                        hurt_content(&mut f);
                    }
                    bytes = format::write(&f);
                }
            }
            7 => {
                if let Some(mut f) = format::read(&bytes) {
                    hurt_content(&mut f);
                    bytes = format::write(&f);
                }
                hurt_bytes(&mut bytes, &old);
            }
            _ => {
                for _ in 0..match choose(4) { 3 => range(2, 12), _ => 1 } {
                    hurt_bytes(&mut bytes, &old);
                }
            }
        }
        // Ask for what was saved, or for something like it.
        let mut ask: Vec<KindRef> = if chance(2, 3) { kinds.clone() } else { some(&kinds) };
        for _ in 0..match choose(4) { 0 => 0, 1 => 0, 2 => 1, _ => 2 } {
            let i = pick(IMPOSTERS);
            if chance(3, 4) {
                ask.retain(|k| k.id() != i.id());
            }
            ask.push(i);
        }
        let ask = shuffled(&ask);
        let truth = format::read(&bytes);
        let mut wrong: Option<String> = None;
        let mut found = |k: KindRef| {
            if wrong.is_none() && !truth.as_ref().map_or(false, |f| described(f, k)) {
                wrong = Some(con_name(k));
            }
        };
        let lenient = chance(1, 2);
        let out = load(&bytes, Load { kinds: &ask, lenient, found: &mut found });
        if let Some(w) = wrong {
            broken(DAMAGE, "contract mistaken", &format!("contract {w} was found in a file that doesn't describe it"));
        }
        match out {
            Loaded::Died(p) => broken(DAMAGE, "load died", &format!("loading {} bytes panicked: {p}", bytes.len())),
            Loaded::Refused(e) => {
                refused += 1;
                ev!("{} bytes refused: {}", bytes.len(), short(&e));
                nontrivial();
            }
            Loaded::Realm(r) => {
                accepted += 1;
                if bytes.get(4..8) != Some(b"TPF1") {
                    broken(DAMAGE, "foreign file accepted", &format!("loaded a file with the mark {:?}", bytes.get(4..8)));
                }
                match Graph::of(&r.base, &r.cons, true) {
                    Err(e) => broken(DAMAGE, "loaded realm inconsistent", &e),
                    Ok(g) => {
                        ev!("{} bytes loaded as [{}]", bytes.len(), g.tell());
                        if !g.closed() {
                            broken(DAMAGE, "dead handle loaded", &format!("a property of the loaded realm leads nowhere: {}", g.difference(&g.clone())));
                        }
                        for (i, (k, _)) in r.cons.iter().enumerate() {
                            if !k.channels().is_empty() && g.objs.iter().any(|o| o.0 == i) {
                                broken(DAMAGE, "object without its channels", &format!("an object of {} was loaded", k.id().name));
                            }
                        }
                        // It must be just what the data says.
                        match truth.as_ref().ok_or("nothing".to_string()).and_then(|f| meaning(f, &r.cons)) {
                            Err(e) => broken(DAMAGE, "realm made up", &format!("loaded [{}] from data with {e}", g.tell())),
                            Ok(m) if m.shape() != g.shape() => {
                                let d = m.difference(&g).replace("saved ", "the data says ");
                                broken(DAMAGE, "realm made up", &d)
                            }
                            Ok(_) => {}
                        }
                        // It must be one that can be worked with, too.
                        let mut r = r;
                        if !r.cons.is_empty() && !r.cons.iter().any(|c| c.0.types().iter().any(|t| *t >= 14)) {
                            let what = catching(|| r.live(range(1, 4), true, &mut serial));
                            if let Err(p) = what {
                                broken(DAMAGE, "loaded realm unusable", &p);
                            }
                        }
                    }
                }
            }
        }
    }
    summary(&format!("{refused} refused, {accepted} accepted"));
}
