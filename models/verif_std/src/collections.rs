//! Models of std's hash collections: a vector of entries searched by `Eq` (a hash of symbolic
//! bytes would make every lookup undecidable for the solver). Iteration follows insertion order,
//! or its reverse when the harness asks for it: std promises no order at all.
use ::std::borrow::Borrow;
use ::std::fmt::{self, Debug};
use ::std::hash::{BuildHasher, Hash};
use ::std::iter::FusedIterator;
use ::std::marker::PhantomData;
use ::std::ops::Index;
pub use ::std::collections::*;

static REV: vx::Global<bool> = vx::Global::new(false);
/// Iterate hash collections in reverse insertion order from now on.
pub fn set_reverse(r: bool) { *REV.get() = r }

struct Slots<T> { a: Vec<T> }
impl<T> Slots<T> {
    const fn new() -> Self { Self { a: Vec::new() } }
    fn len(&self) -> usize { self.a.len() }
    fn push(&mut self, t: T) -> usize { self.a.push(t); self.a.len() - 1 }
    fn remove_at(&mut self, i: usize) -> Option<T> { Some(self.a.remove(i)) }
    fn find(&self, f: impl Fn(&T) -> bool) -> Option<usize> { self.a.iter().position(f) }
    fn at(&self, i: usize) -> &T { &self.a[i] }
    fn at_mut(&mut self, i: usize) -> &mut T { &mut self.a[i] }
    fn clear(&mut self) { self.a.clear() }
    fn it(&self) -> RawIter<'_, T> { RawIter { i: self.a.iter(), r: *REV.get() } }
    fn it_mut(&mut self) -> RawIterMut<'_, T> { RawIterMut { i: self.a.iter_mut(), r: *REV.get() } }
    fn into(self) -> RawInto<T> { RawInto { i: self.a.into_iter(), r: *REV.get() } }
}
impl<T: Clone> Clone for Slots<T> { fn clone(&self) -> Self { Self { a: self.a.clone() } } }

macro_rules! raw {
    ($n:ident $(<$l:lifetime>)?, $i:ty, $item:ty) => {
        struct $n<$($l,)? T> { i: $i, r: bool }
        impl<$($l,)? T> $n<$($l,)? T> {
            #[inline(always)]
            fn next(&mut self) -> Option<$item> { if self.r { self.i.next_back() } else { self.i.next() } }
            fn left(&self) -> usize { self.i.len() }
        }
    };
}
raw!(RawIter<'a>, ::std::slice::Iter<'a, T>, &'a T);
raw!(RawIterMut<'a>, ::std::slice::IterMut<'a, T>, &'a mut T);
raw!(RawInto, ::std::vec::IntoIter<T>, T);
impl<'a, T> Clone for RawIter<'a, T> { fn clone(&self) -> Self { Self { i: self.i.clone(), r: self.r } } }

macro_rules! hint {
    () => { fn size_hint(&self) -> (usize, Option<usize>) { (0, None) } };
}

pub mod hash_map {
    pub use super::{
        Drain, Entry, HashMap, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry,
        Values, ValuesMut,
    };
    pub use ::std::collections::hash_map::RandomState;

    /// A cheap stand-in for SipHash: equal values have equal hashes, and short different ones different hashes.
    #[derive(Clone, Debug, Default)]
    pub struct DefaultHasher(u64);
    impl DefaultHasher {
        pub fn new() -> Self { Self(0) }
    }
    impl ::std::hash::Hasher for DefaultHasher {
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes { self.0 = self.0.rotate_left(9) ^ u64::from(*b); }
        }
        fn finish(&self) -> u64 { self.0 }
    }
}
pub mod hash_set {
    pub use super::{HashSet, SetDifference as Difference, SetDrain as Drain, SetIntersection as Intersection, SetIntoIter as IntoIter, SetIter as Iter, SetSymDifference as SymmetricDifference, SetUnion as Union};
    pub use ::std::collections::hash_map::RandomState;
}
pub use ::std::collections::hash_map::RandomState;

pub struct HashMap<K, V, S = RandomState> {
    s: Slots<(K, V)>,
    p: PhantomData<fn() -> S>,
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self { Self { s: Slots::new(), p: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_s: S) -> Self { Self { s: Slots::new(), p: PhantomData } }
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self { Self { s: Slots::new(), p: PhantomData } }
    pub fn len(&self) -> usize { self.s.len() }
    pub fn is_empty(&self) -> bool { self.s.len() == 0 }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn clear(&mut self) { self.s.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.s.it()) }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.s.it_mut())
    }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
    pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
    pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys(IntoIter(self.s.into())) }
    pub fn into_values(self) -> IntoValues<K, V> { IntoValues(IntoIter(self.s.into())) }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        let s = ::std::mem::replace(&mut self.s, Slots::new());
        Drain(s.into(), PhantomData)
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let old = ::std::mem::replace(&mut self.s, Slots::new());
        let mut it = old.into();
        while let Some((k, mut v)) = it.next() {
            if f(&k, &mut v) {
                self.s.push((k, v));
            }
        }
    }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> ::std::vec::IntoIter<(K, V)> {
        let (mut out, old) = (Vec::new(), ::std::mem::replace(&mut self.s, Slots::new()));
        let mut it = old.into();
        while let Some((k, mut v)) = it.next() { if f(&k, &mut v) { out.push((k, v)); } else { self.s.push((k, v)); } }
        out.into_iter()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn idx<Q: ?Sized + Eq>(&self, q: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.s.find(|(k, _)| k.borrow() == q)
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => Some(&self.s.at(i).1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => {
                let e = self.s.at(i);
                Some((&e.0, &e.1))
            }
            None => None,
        }
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => Some(&mut self.s.at_mut(i).1),
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.idx(q).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.idx(&k) {
            Some(i) => Some(::std::mem::replace(&mut self.s.at_mut(i).1, v)),
            None => {
                self.s.push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => self.s.remove_at(i).map(|(_, v)| v),
            None => None,
        }
    }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => self.s.remove_at(i),
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.idx(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { s: &mut self.s, i, _k: Some(k) }),
            None => Entry::Vacant(VacantEntry { s: &mut self.s, k }),
        }
    }
}

pub enum Entry<'a, K: 'a, V: 'a> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    s: &'a mut Slots<(K, V)>,
    i: usize,
    _k: Option<K>,
}
pub struct VacantEntry<'a, K, V> {
    s: &'a mut Slots<(K, V)>,
    k: K,
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => {
                let v = f(&e.k);
                e.insert(v)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut());
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        match self {
            Entry::Occupied(mut e) => {
                e.insert(v);
                e
            }
            Entry::Vacant(e) => {
                let i = e.s.push((e.k, v));
                OccupiedEntry { s: e.s, i, _k: None }
            }
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.s.at(self.i).0 }
    pub fn get(&self) -> &V { &self.s.at(self.i).1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.s.at_mut(self.i).1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.s.at_mut(self.i).1 }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.remove_entry().1 }
    pub fn remove_entry(self) -> (K, V) {
        match self.s.remove_at(self.i) {
            Some(e) => e,
            None => unreachable!(),
        }
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.s.push((self.k, v));
        &mut self.s.at_mut(i).1
    }
}

pub struct Iter<'a, K, V>(RawIter<'a, (K, V)>);
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self { Iter(self.0.clone()) }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|e| (&e.0, &e.1)) }
    hint!();
}
impl<'a, K, V> FusedIterator for Iter<'a, K, V> {}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {
    fn len(&self) -> usize { self.0.left() }
}
pub struct IterMut<'a, K, V>(RawIterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|e| (&e.0, &mut e.1)) }
    hint!();
}
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Clone for Keys<'a, K, V> {
    fn clone(&self) -> Self { Keys(self.0.clone()) }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a K> { self.0.next().map(|e| e.0) }
    hint!();
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {
    fn len(&self) -> usize { self.0.len() }
}
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Clone for Values<'a, K, V> {
    fn clone(&self) -> Self { Values(self.0.clone()) }
}
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a V> { self.0.next().map(|e| e.1) }
    hint!();
}
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {
    fn len(&self) -> usize { self.0.len() }
}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> { self.0.next().map(|e| e.1) }
    hint!();
}
pub struct IntoIter<K, V>(RawInto<(K, V)>);
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    #[inline(always)]
    fn next(&mut self) -> Option<(K, V)> { self.0.next() }
    hint!();
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {
    fn len(&self) -> usize { self.0.left() }
}
pub struct IntoKeys<K, V>(IntoIter<K, V>);
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> { self.0.next().map(|e| e.0) }
    hint!();
}
pub struct IntoValues<K, V>(IntoIter<K, V>);
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> { self.0.next().map(|e| e.1) }
    hint!();
}
pub struct Drain<'a, K, V>(RawInto<(K, V)>, PhantomData<&'a mut ()>);
impl<'a, K, V> Iterator for Drain<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { self.0.next() }
    hint!();
}

impl<K, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self { Self { s: Slots::new(), p: PhantomData } }
}
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self { Self { s: self.s.clone(), p: PhantomData } }
}
impl<K: Debug, V: Debug, S> Debug for HashMap<K, V, S> {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, q: &Q) -> &V { self.get(q).expect("no entry found for key") }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> { IntoIter(self.s.into()) }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> { self.iter() }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() }
}

// ---------------------------------------------------------------------------------------- sets

pub struct HashSet<T, S = RandomState> {
    s: Slots<T>,
    p: PhantomData<fn() -> S>,
}
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self { Self { s: Slots::new(), p: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(_s: S) -> Self { Self { s: Slots::new(), p: PhantomData } }
    pub fn len(&self) -> usize { self.s.len() }
    pub fn is_empty(&self) -> bool { self.s.len() == 0 }
    pub fn capacity(&self) -> usize { usize::MAX }
    pub fn clear(&mut self) { self.s.clear() }
    pub fn iter(&self) -> SetIter<'_, T> { SetIter(self.s.it()) }
    pub fn drain(&mut self) -> SetDrain<'_, T> {
        let s = ::std::mem::replace(&mut self.s, Slots::new());
        SetDrain(s.into(), PhantomData)
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let old = ::std::mem::replace(&mut self.s, Slots::new());
        let mut it = old.into();
        while let Some(t) = it.next() {
            if f(&t) {
                self.s.push(t);
            }
        }
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
}
impl<T, S> HashSet<T, S> {
    pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> ::std::vec::IntoIter<T> {
        let (mut out, old) = (Vec::new(), ::std::mem::replace(&mut self.s, Slots::new()));
        let mut it = old.into();
        while let Some(t) = it.next() { if f(&t) { out.push(t); } else { self.s.push(t); } }
        out.into_iter()
    }
}
impl<T: Eq + Hash, S> HashSet<T, S> {
    fn idx<Q: ?Sized + Eq>(&self, q: &Q) -> Option<usize>
    where
        T: Borrow<Q>,
    {
        self.s.find(|t| t.borrow() == q)
    }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.idx(q).is_some()
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => Some(self.s.at(i)),
            None => None,
        }
    }
    pub fn insert(&mut self, t: T) -> bool {
        if self.idx(&t).is_some() {
            return false;
        }
        self.s.push(t);
        true
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        match self.idx(&t) {
            Some(i) => Some(::std::mem::replace(self.s.at_mut(i), t)),
            None => {
                self.s.push(t);
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => {
                self.s.remove_at(i);
                true
            }
            None => false,
        }
    }
    pub fn take<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        match self.idx(q) {
            Some(i) => self.s.remove_at(i),
            None => None,
        }
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> SetDifference<'a, T, S> {
        SetDifference { it: self.iter(), o, keep: false }
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> SetIntersection<'a, T, S> {
        SetDifference { it: self.iter(), o, keep: true }
    }
    pub fn union<'a>(&'a self, o: &'a Self) -> SetUnion<'a, T, S> { self.iter().chain(o.difference(self)) }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> SetSymDifference<'a, T, S> {
        self.difference(o).chain(o.difference(self))
    }
    pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|t| o.contains(t)) }
    pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
    pub fn is_disjoint(&self, o: &Self) -> bool { self.iter().all(|t| !o.contains(t)) }
}

pub struct SetIter<'a, T>(RawIter<'a, T>);
impl<'a, T> Clone for SetIter<'a, T> {
    fn clone(&self) -> Self { SetIter(self.0.clone()) }
}
impl<'a, T> Iterator for SetIter<'a, T> {
    type Item = &'a T;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a T> { self.0.next() }
    hint!();
}
impl<'a, T> FusedIterator for SetIter<'a, T> {}
impl<'a, T> ExactSizeIterator for SetIter<'a, T> {
    fn len(&self) -> usize { self.0.left() }
}
pub struct SetIntoIter<T>(RawInto<T>);
impl<T> Iterator for SetIntoIter<T> {
    type Item = T;
    #[inline(always)]
    fn next(&mut self) -> Option<T> { self.0.next() }
    hint!();
}
impl<T> ExactSizeIterator for SetIntoIter<T> {
    fn len(&self) -> usize { self.0.left() }
}
pub struct SetDrain<'a, T>(RawInto<T>, PhantomData<&'a mut ()>);
impl<'a, T> Iterator for SetDrain<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    hint!();
}
pub struct SetDifference<'a, T, S> {
    it: SetIter<'a, T>,
    o: &'a HashSet<T, S>,
    keep: bool,
}
pub type SetIntersection<'a, T, S> = SetDifference<'a, T, S>;
pub type SetUnion<'a, T, S> = ::std::iter::Chain<SetIter<'a, T>, SetDifference<'a, T, S>>;
pub type SetSymDifference<'a, T, S> = ::std::iter::Chain<SetDifference<'a, T, S>, SetDifference<'a, T, S>>;
impl<'a, T, S> Clone for SetDifference<'a, T, S> {
    fn clone(&self) -> Self { Self { it: self.it.clone(), o: self.o, keep: self.keep } }
}
impl<'a, T: Eq + Hash, S> Iterator for SetDifference<'a, T, S> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        while let Some(t) = self.it.next() {
            if self.o.contains(t) == self.keep {
                return Some(t);
            }
        }
        None
    }
    hint!();
}

impl<T, S> Default for HashSet<T, S> {
    fn default() -> Self { Self { s: Slots::new(), p: PhantomData } }
}
impl<T: Clone, S> Clone for HashSet<T, S> {
    fn clone(&self) -> Self { Self { s: self.s.clone(), p: PhantomData } }
}
impl<T: Debug, S> Debug for HashSet<T, S> {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) }
}
impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.insert(t);
        }
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for t in it {
            self.insert(*t);
        }
    }
}
impl<T: Eq + Hash, S: Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = SetIntoIter<T>;
    fn into_iter(self) -> SetIntoIter<T> { SetIntoIter(self.s.into()) }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = SetIter<'a, T>;
    fn into_iter(self) -> SetIter<'a, T> { self.iter() }
}
macro_rules! setop {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<T: Eq + Hash + Clone, S: Default> ::std::ops::$tr<&HashSet<T, S>> for &HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.$m(o).cloned().collect() }
        }
    };
}
setop!(BitOr, bitor, union);
setop!(BitAnd, bitand, intersection);
setop!(Sub, sub, difference);
setop!(BitXor, bitxor, symmetric_difference);

// Unused by default, kept so the trait bound names resolve.
#[allow(dead_code)]
fn _bh<S: BuildHasher>() {}
