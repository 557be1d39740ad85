//! The arena beneath every handle, by itself: long histories of insertions,
//! removals, iterations and copies, with every handle ever issued kept and
//! tried again. Decides (with `realm` and `mass`) C07.
use arena::{Arena, Index};
use dsim::*;
use std::collections::{BTreeSet, HashMap, HashSet};

const C7: &[&str] = &["C07"];

/// An arena with its model: every index ever issued, and what is alive.
struct Slots {
    a: Arena<u64>,
    issued: Vec<Index<u64>>,
    live: HashMap<Index<u64>, u64>,
}
fn wrong(what: &str) -> ! {
    broken(C7, "arena-wrong", what)
}
impl Slots {
    fn of(a: Arena<u64>, values: &[u64]) -> Self {
        let mut s = Slots { a, issued: Vec::new(), live: HashMap::new() };
        let mut left: Vec<u64> = values.to_vec();
        for (i, v) in s.a.iter() {
            match left.iter().position(|x| x == v) {
                Some(p) => drop(left.remove(p)),
                None => wrong(&format!("an arena made of a list holds {v}, which was not in it (or not so often)")),
            }
            s.issued.push(i);
            if s.live.insert(i, *v).is_some() {
                wrong("two elements of an arena made of a list have the same handle");
            }
        }
        ensure_for!(C7, left.is_empty(), "arena-wrong", "an arena made of a list lost {} elements", left.len());
        s
    }
    fn insert(&mut self, v: u64) {
        let i = self.a.insert(v);
        if self.issued.contains(&i) {
            wrong(&format!("the handle {i:?} was issued a second time"));
        }
        self.issued.push(i);
        self.live.insert(i, v);
    }
    fn probe(&mut self, i: Index<u64>) {
        let want = self.live.get(&i).copied();
        let got = self.a.get(i).copied();
        ensure_for!(C7, got == want, "arena-wrong", "{i:?} reads {got:?} instead of {want:?}");
        let got = self.a.get_mut(i).map(|x| *x);
        ensure_for!(C7, got == want, "arena-wrong", "{i:?} reads {got:?} instead of {want:?} for writing");
        let got = self.a.contains(i);
        ensure_for!(C7, got == want.is_some(), "arena-wrong", "{i:?} is contained: {got}, but alive: {}", want.is_some());
        let got = catching(|| self.a[i]).ok();
        ensure_for!(C7, got == want, "arena-wrong", "{i:?} indexes {got:?} instead of {want:?}");
    }
    fn write(&mut self, i: Index<u64>, v: u64) {
        let alive = self.live.contains_key(&i);
        let done = match choose(2) {
            0 => self.a.get_mut(i).map(|x| *x = v).is_some(),
            _ => catching(|| self.a[i] = v).is_ok(),
        };
        ensure_for!(C7, done == alive, "arena-wrong", "writing through {i:?} succeeded: {done}, but alive: {alive}");
        if alive {
            self.live.insert(i, v);
        }
    }
    fn remove(&mut self, i: Index<u64>) {
        let want = self.live.remove(&i);
        let got = self.a.remove(i);
        ensure_for!(C7, got == want, "arena-wrong", "removing {i:?} gave {got:?} instead of {want:?}");
    }
    /// Everything at once, by every way of going through it.
    fn check(&mut self, all: bool) {
        let n = self.live.len();
        let (len, empty, cap) = (self.a.len(), self.a.is_empty(), self.a.capacity());
        ensure_for!(C7, len == n && empty == (n == 0) && cap >= n, "arena-wrong", "{n} elements are alive, but the length is {len}, the capacity {cap}, and empty {empty}");
        let forth: Vec<_> = self.a.iter().map(|(i, v)| (i, *v)).collect();
        let mut back: Vec<_> = self.a.iter().rev().map(|(i, v)| (i, *v)).collect();
        back.reverse();
        let muts: Vec<_> = self.a.iter_mut().map(|(i, v)| (i, *v)).collect();
        ensure_for!(C7, forth == back && forth == muts, "arena-wrong", "iterating forwards, backwards and for writing gives {}, {} and {} different elements", forth.len(), back.len(), muts.len());
        let same = forth.len() == n && forth.iter().all(|(i, v)| self.live.get(i) == Some(v));
        ensure_for!(C7, same, "arena-wrong", "iterating gives {} elements where {n} are alive, or others", forth.len());
        let mut it = self.a.iter();
        let mut left = n;
        loop {
            let (l, hint) = (it.len(), it.size_hint());
            ensure_for!(C7, l == left && hint == (left, Some(left)), "arena-wrong", "an iteration with {left} elements to go says {l} and {hint:?}");
            let x = if choose(2) == 0 { it.next() } else { it.next_back() };
            if x.is_none() {
                break;
            }
            left = left.saturating_sub(1);
        }
        if all {
            for k in 0..self.issued.len() {
                self.probe(self.issued[k]);
            }
            let sorted: BTreeSet<_> = self.issued.iter().copied().collect();
            let hashed: HashSet<_> = self.issued.iter().copied().collect();
            ensure_for!(C7, sorted.len() == self.issued.len() && hashed.len() == self.issued.len(), "arena-wrong", "{} different handles count as {} when sorted and {} when hashed", self.issued.len(), sorted.len(), hashed.len());
        }
    }
}

/// C07: handles of the arena itself.
pub fn arenas() {
    let mut next = 0u64;
    let mut value = || {
        next += 1;
        if next % 5 == 0 { 0 } else { next }
    };
    let mut all = vec![match choose(3) {
        0 => Slots::of(Arena::new(), &[]),
        1 => Slots::of(Arena::with_capacity(range(0, 9)), &[]),
        _ => {
            let v: Vec<u64> = (0..range(0, 9)).map(|_| value()).collect();
            Slots::of(v.iter().copied().collect(), &v)
        }
    }];
    let steps = range(20, 150);
    summary(&format!("{steps} steps on arenas"));
    nontrivial();
    for _ in 0..steps {
        let s = choose(all.len());
        let n = all.len();
        let s = &mut all[s];
        let old = |s: &Slots| if s.issued.is_empty() { None } else { Some(s.issued[choose(s.issued.len())]) };
        match weighted(&[30, 20, 15, 10, 8, 4, 3, 2, 2, 1]) {
            0 => {
                let v = value();
                ev!("inserts {v}");
                s.insert(v);
            }
            1 => {
                if let Some(i) = old(s) {
                    ev!("removes {i:?}");
                    s.remove(i);
                    s.probe(i);
                }
            }
            2 => {
                if let Some(i) = old(s) {
                    let v = value();
                    ev!("writes {v} through {i:?}");
                    s.write(i, v);
                }
            }
            3 => {
                if let Some(i) = old(s) {
                    s.probe(i);
                }
            }
            4 => s.check(false),
            5 => {
                let k = choose(20);
                ev!("reserves {k}");
                s.a.reserve(k);
                let (c, l) = (s.a.capacity(), s.a.len());
                ensure_for!(C7, c >= l + k, "arena-wrong", "after reserving {k} beyond {l} the capacity is {c}");
            }
            6 => {
                // Changes every element in passing.
                let d = value();
                ev!("adds {d} to every element");
                for (i, v) in &mut s.a {
                    *v = v.wrapping_add(d);
                    if let Some(x) = s.live.get_mut(&i) {
                        *x = x.wrapping_add(d);
                    }
                }
            }
            7 if n < 4 => {
                ev!("copies an arena");
                let c = Slots { a: s.a.clone(), issued: s.issued.clone(), live: s.live.clone() };
                all.push(c);
            }
            8 => {
                ev!("takes an arena apart and makes another of the elements");
                let a = std::mem::take(&mut s.a);
                let v: Vec<u64> = a.into_iter().collect();
                let (mut x, mut y) = (v.clone(), s.live.values().copied().collect::<Vec<_>>());
                x.sort_unstable();
                y.sort_unstable();
                ensure_for!(C7, x == y, "arena-wrong", "an arena of {} elements came apart into {}, or into others", y.len(), x.len());
                *s = Slots::of(v.iter().copied().collect(), &v);
            }
            9 => {
                // Many lives of one place, the earlier ones of which are over.
                let n = [3, 40, 300, 5_000, 70_000][weighted(&[8, 4, 8, 1, 1])];
                let mut over = Vec::new();
                ev!("{n} elements come and go");
                for k in 0..n {
                    let i = s.a.insert(k);
                    ensure_for!(C7, s.a.remove(i) == Some(k), "arena-wrong", "{i:?} removes something else than was just inserted");
                    over.push(i);
                }
                s.insert(n);
                let now = s.issued[s.issued.len() - 1];
                for i in over {
                    let r = (s.a.get(i).is_some(), s.a.contains(i), s.a.get_mut(i).is_some(), s.a.remove(i).is_some());
                    ensure_for!(C7, r == (false, false, false, false) && i != now, "arena-wrong", "{i:?}, one of {n} removed earlier: (read, contained, written, removed) is {r:?}");
                }
                s.probe(now);
                probe(if n > 60_000 { "more than 60000 lives of one place" } else if n > 255 { "more than 255 lives of one place" } else { "up to 255 lives of one place" });
            }
            _ => {}
        }
    }
    for s in &mut all {
        s.check(true);
    }
}
