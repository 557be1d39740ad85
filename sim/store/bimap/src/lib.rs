//! Stand-in for `bimap`: a bijection between two sets.
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicPtr, Ordering};

/// Chooses among `n`; decides the order in which maps are iterated.
static CHOOSE: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
pub fn order_by(f: fn(usize) -> usize) {
    CHOOSE.store(f as *mut (), Ordering::Relaxed)
}
fn choose(n: usize) -> usize {
    let p = CHOOSE.load(Ordering::Relaxed);
    if p.is_null() {
        return 0;
    }
    let f: fn(usize) -> usize = unsafe { std::mem::transmute(p) };
    f(n)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}
impl<L, R> Overwritten<L, R> {
    pub fn did_overwrite(&self) -> bool {
        !matches!(self, Overwritten::Neither)
    }
}
#[derive(Clone)]
pub struct BiHashMap<L, R> {
    pairs: Vec<(L, R)>,
    left: HashMap<L, usize>,
    right: HashMap<R, usize>,
}
pub type BiMap<L, R> = BiHashMap<L, R>;
impl<L, R> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self { pairs: Vec::new(), left: HashMap::new(), right: HashMap::new() }
    }
}
impl<L: Debug, R: Debug> Debug for BiHashMap<L, R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.pairs.iter().map(|(l, r)| (l, r))).finish()
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn capacity(&self) -> usize {
        self.pairs.capacity()
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn retain(&mut self, mut f: impl FnMut(&L, &R) -> bool) {
        let keep: Vec<(L, R)> = self.iter().filter(|(l, r)| f(l, r)).map(|(l, r)| (l.clone(), r.clone())).collect();
        *self = keep.into_iter().collect()
    }
    pub fn len(&self) -> usize {
        self.pairs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.pairs.is_empty()
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.left.get(l).map(|&i| &self.pairs[i].1)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.right.get(r).map(|&i| &self.pairs[i].0)
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.left.contains_key(l)
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.right.contains_key(r)
    }
    fn take(&mut self, i: usize) -> (L, R) {
        let pair = self.pairs.swap_remove(i);
        self.left.remove(&pair.0);
        self.right.remove(&pair.1);
        if let Some((l, r)) = self.pairs.get(i) {
            self.left.insert(l.clone(), i);
            self.right.insert(r.clone(), i);
        }
        pair
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        let i = *self.left.get(l)?;
        Some(self.take(i))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        let i = *self.right.get(r)?;
        Some(self.take(i))
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let out = match (self.left.get(&l).copied(), self.right.get(&r).copied()) {
            (None, None) => Overwritten::Neither,
            (Some(i), Some(j)) if i == j => {
                let (l, r) = self.take(i);
                Overwritten::Pair(l, r)
            }
            (Some(_), Some(_)) => {
                let a = self.remove_by_left(&l).unwrap();
                let b = self.remove_by_right(&r).unwrap();
                Overwritten::Both(a, b)
            }
            (Some(i), None) => {
                let (l, r) = self.take(i);
                Overwritten::Left(l, r)
            }
            (None, Some(i)) => {
                let (l, r) = self.take(i);
                Overwritten::Right(l, r)
            }
        };
        let i = self.pairs.len();
        self.left.insert(l.clone(), i);
        self.right.insert(r.clone(), i);
        self.pairs.push((l, r));
        out
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.contains_left(&l) || self.contains_right(&r) {
            return Err((l, r));
        }
        self.insert(l, r);
        Ok(())
    }
    pub fn iter(&self) -> Iter<'_, L, R> {
        let n = self.pairs.len();
        let mut order: Vec<usize> = (0..n).collect();
        for i in 0..n {
            order.swap(i, i + choose(n - i));
        }
        Iter { pairs: &self.pairs, order: order.into_iter() }
    }
    pub fn left_values(&self) -> impl Iterator<Item = &L> {
        self.iter().map(|p| p.0)
    }
    pub fn right_values(&self) -> impl Iterator<Item = &R> {
        self.iter().map(|p| p.1)
    }
    pub fn clear(&mut self) {
        *self = Self::default()
    }
}
pub struct Iter<'a, L, R> {
    pairs: &'a [(L, R)],
    order: std::vec::IntoIter<usize>,
}
impl<'a, L, R> Iterator for Iter<'a, L, R> {
    type Item = (&'a L, &'a R);
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.order.next()?;
        Some((&self.pairs[i].0, &self.pairs[i].1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.order.size_hint()
    }
}
impl<L, R> ExactSizeIterator for Iter<'_, L, R> {}
impl<'a, L: Eq + Hash + Clone, R: Eq + Hash + Clone> IntoIterator for &'a BiHashMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = Iter<'a, L, R>;
    fn into_iter(self) -> Iter<'a, L, R> {
        self.iter()
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> IntoIterator for BiHashMap<L, R> {
    type Item = (L, R);
    type IntoIter = std::vec::IntoIter<(L, R)>;
    fn into_iter(self) -> Self::IntoIter {
        let v: Vec<(L, R)> = self.iter().map(|(l, r)| (l.clone(), r.clone())).collect();
        v.into_iter()
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> FromIterator<(L, R)> for BiHashMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(it: I) -> Self {
        let mut m = Self::new();
        for (l, r) in it {
            m.insert(l, r);
        }
        m
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> Extend<(L, R)> for BiHashMap<L, R> {
    fn extend<I: IntoIterator<Item = (L, R)>>(&mut self, it: I) {
        for (l, r) in it {
            self.insert(l, r);
        }
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> PartialEq for BiHashMap<L, R> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.pairs.iter().all(|(l, r)| o.get_by_left(l) == Some(r))
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> Eq for BiHashMap<L, R> {}
