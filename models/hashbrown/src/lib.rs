//! Finite-map model of `hashbrown` for symbolic execution.
//!
//! Semantics kept: finite map / set with unique keys compared by `Eq`, at most `N` live entries
//! (more: panic, which a check reports as inconclusive). Not modelled: hashing, iteration order
//! (here: slot order), capacity, and deallocation (entries are leaked, so no drop glue runs).
#![no_std]
extern crate alloc;

/// Number of entries a modelled map can hold.
pub const N: usize = 4;

pub mod hash_map {
    use crate::N;
    use alloc::boxed::Box;
    use core::{
        borrow::Borrow,
        fmt,
        hash::{BuildHasher, Hash},
        ops::Index,
    };

    pub use core::hash::BuildHasherDefault as DefaultHashBuilder;

    type Slot<K, V> = *mut (K, V);

    /// Key equality without a byte loop for the two hot key layouts (20-byte addresses, 32-byte
    /// words); the types of those layouts used as keys have no padding and derive `Eq`.
    #[inline]
    fn key_eq<K: Borrow<Q>, Q: ?Sized + Eq>(a: &K, b: &Q) -> bool {
        let sb = core::mem::size_of_val(b);
        let ab = core::mem::align_of_val(b);
        let pa: *const u8 = a.borrow() as *const Q as *const u8;
        let pb: *const u8 = b as *const Q as *const u8;
        if core::mem::size_of::<K>() == 20 && core::mem::align_of::<K>() == 1 && sb == 20 && ab == 1
        {
            unsafe {
                let (x, y) = (pa as *const [u64; 2], pb as *const [u64; 2]);
                let (x, y) = (x.read_unaligned(), y.read_unaligned());
                let (u, v) = (pa.add(16) as *const u32, pb.add(16) as *const u32);
                let (u, v) = (u.read_unaligned(), v.read_unaligned());
                (x[0] == y[0]) & (x[1] == y[1]) & (u == v)
            }
        } else if core::mem::size_of::<K>() == 32 && sb == 32 {
            unsafe {
                let (x, y) = (pa as *const [u64; 4], pb as *const [u64; 4]);
                let (x, y) = (x.read_unaligned(), y.read_unaligned());
                (x[0] == y[0]) & (x[1] == y[1]) & (x[2] == y[2]) & (x[3] == y[3])
            }
        } else {
            a.borrow() == b
        }
    }

    pub struct HashMap<K, V, S = ()> {
        pub(crate) slots: [Slot<K, V>; N],
        pub(crate) s: S,
    }
    unsafe impl<K: Send, V: Send, S: Send> Send for HashMap<K, V, S> {}
    unsafe impl<K: Sync, V: Sync, S: Sync> Sync for HashMap<K, V, S> {}

    impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            let mut slots: [Slot<K, V>; N] = [core::ptr::null_mut(); N];
            let mut i = 0;
            while i < N {
                if let Some(kv) = self.at(i) {
                    slots[i] = Box::into_raw(Box::new((kv.0.clone(), kv.1.clone())));
                }
                i += 1;
            }
            Self { slots, s: self.s.clone() }
        }
    }

    impl<K, V, S: Default> Default for HashMap<K, V, S> {
        fn default() -> Self {
            Self { slots: [core::ptr::null_mut(); N], s: S::default() }
        }
    }

    impl<K, V, S> HashMap<K, V, S> {
        pub const fn with_hasher(s: S) -> Self {
            Self { slots: [core::ptr::null_mut(); N], s }
        }
        pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
            Self::with_hasher(s)
        }
        #[inline]
        pub(crate) fn at(&self, i: usize) -> Option<&(K, V)> {
            let p = self.slots[i];
            if p.is_null() {
                None
            } else {
                Some(unsafe { &*p })
            }
        }
        #[inline]
        pub(crate) fn take_at(&mut self, i: usize) -> (K, V) {
            let p = self.slots[i];
            self.slots[i] = core::ptr::null_mut();
            unsafe { core::ptr::read(p) }
        }
        pub fn hasher(&self) -> &S {
            &self.s
        }
        pub fn capacity(&self) -> usize {
            N
        }
        pub fn len(&self) -> usize {
            let mut n = 0;
            let mut i = 0;
            while i < N {
                if !self.slots[i].is_null() {
                    n += 1;
                }
                i += 1;
            }
            n
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn clear(&mut self) {
            self.slots = [core::ptr::null_mut(); N];
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter(RawIter { slots: self.slots, i: 0 }, core::marker::PhantomData)
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            IterMut(RawIter { slots: self.slots, i: 0 }, core::marker::PhantomData)
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys(self.iter())
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values(self.iter())
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut(self.iter_mut())
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            IntoKeys(self.into_iter())
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            IntoValues(self.into_iter())
        }
        pub fn drain(&mut self) -> Drain<'_, K, V> {
            let slots = self.slots;
            self.clear();
            Drain(RawIter { slots, i: 0 }, core::marker::PhantomData)
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let mut i = 0;
            while i < N {
                if !self.slots[i].is_null() {
                    let kv = unsafe { &mut *self.slots[i] };
                    if !f(&kv.0, &mut kv.1) {
                        self.slots[i] = core::ptr::null_mut();
                    }
                }
                i += 1;
            }
        }
    }

    impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
        pub fn reserve(&mut self, _n: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn shrink_to(&mut self, _n: usize) {}

        #[inline]
        fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Slot<K, V>
        where
            K: Borrow<Q>,
        {
            let mut r = core::ptr::null_mut();
            let mut i = 0;
            while i < N {
                let p = self.slots[i];
                if !p.is_null() && key_eq(unsafe { &(*p).0 }, k) {
                    r = p;
                }
                i += 1;
            }
            r
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            let p = self.find(k);
            if p.is_null() {
                None
            } else {
                Some(unsafe { &(*p).1 })
            }
        }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            let p = self.find(k);
            if p.is_null() {
                None
            } else {
                Some(unsafe { (&(*p).0, &(*p).1) })
            }
        }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            let p = self.find(k);
            if p.is_null() {
                None
            } else {
                Some(unsafe { &mut (*p).1 })
            }
        }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            !self.find(k).is_null()
        }
        pub(crate) fn push(&mut self, k: K, v: V) -> Slot<K, V> {
            let p = Box::into_raw(Box::new((k, v)));
            let mut done = false;
            let mut i = 0;
            while i < N {
                if !done && self.slots[i].is_null() {
                    self.slots[i] = p;
                    done = true;
                }
                i += 1;
            }
            if !done {
                panic!("MODEL-CAPACITY: modelled map is full");
            }
            p
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            let p = self.find(&k);
            if p.is_null() {
                self.push(k, v);
                None
            } else {
                Some(core::mem::replace(unsafe { &mut (*p).1 }, v))
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            match self.remove_entry(k) {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            let p = self.find(k);
            if p.is_null() {
                return None;
            }
            self.unlink(p);
            Some(unsafe { core::ptr::read(p) })
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V, S> {
            let p = self.find(&key);
            if p.is_null() {
                Entry::Vacant(VacantEntry { map: self, key })
            } else {
                Entry::Occupied(OccupiedEntry { map: self, p })
            }
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        fn unlink(&mut self, p: Slot<K, V>) {
            let mut i = 0;
            while i < N {
                if self.slots[i] == p {
                    self.slots[i] = core::ptr::null_mut();
                }
                i += 1;
            }
        }
    }

    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            if self.len() != o.len() {
                return false;
            }
            for (k, v) in self.iter() {
                match o.get(k) {
                    Some(w) if *v == *w => {}
                    _ => return false,
                }
            }
            true
        }
    }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}

    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q>
        for HashMap<K, V, S>
    {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::default();
            for (k, v) in it {
                m.insert(k, v);
            }
            m
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher + Default, const N: usize> From<[(K, V); N]>
        for HashMap<K, V, S>
    {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)>
        for HashMap<K, V, S>
    {
        fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(*k, *v);
            }
        }
    }

    pub(crate) struct RawIter<K, V> {
        slots: [Slot<K, V>; N],
        i: usize,
    }
    impl<K, V> RawIter<K, V> {
        #[inline]
        fn step(&mut self) -> Slot<K, V> {
            while self.i < N {
                let p = self.slots[self.i];
                self.i += 1;
                if !p.is_null() {
                    return p;
                }
            }
            core::ptr::null_mut()
        }
        fn left(&self) -> usize {
            let mut n = 0;
            let mut i = 0;
            while i < N {
                if i >= self.i && !self.slots[i].is_null() {
                    n += 1;
                }
                i += 1;
            }
            n
        }
    }
    type PhRef<'a, K, V> = core::marker::PhantomData<&'a (K, V)>;
    type PhMut<'a, K, V> = core::marker::PhantomData<&'a mut (K, V)>;
    pub struct Iter<'a, K, V>(RawIter<K, V>, PhRef<'a, K, V>);
    pub struct IterMut<'a, K, V>(RawIter<K, V>, PhMut<'a, K, V>);
    pub struct IntoIter<K, V>(RawIter<K, V>);
    pub struct Drain<'a, K, V>(RawIter<K, V>, PhMut<'a, K, V>);
    pub struct Keys<'a, K, V>(Iter<'a, K, V>);
    pub struct Values<'a, K, V>(Iter<'a, K, V>);
    pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
    pub struct IntoKeys<K, V>(IntoIter<K, V>);
    pub struct IntoValues<K, V>(IntoIter<K, V>);
    unsafe impl<K: Sync, V: Sync> Send for Iter<'_, K, V> {}
    unsafe impl<K: Sync, V: Sync> Sync for Iter<'_, K, V> {}
    unsafe impl<K: Send, V: Send> Send for IterMut<'_, K, V> {}
    unsafe impl<K: Send, V: Send> Send for IntoIter<K, V> {}
    unsafe impl<K: Send, V: Send> Send for Drain<'_, K, V> {}
    impl<K, V> Clone for Iter<'_, K, V> {
        fn clone(&self) -> Self {
            Self(RawIter { slots: self.0.slots, i: self.0.i }, core::marker::PhantomData)
        }
    }
    impl<K, V> Clone for Keys<'_, K, V> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    impl<K, V> Clone for Values<'_, K, V> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    macro_rules! raw_iter {
        ($name:ident<$($lt:lifetime)?>, $item:ty, $p:ident => $e:expr) => {
            impl<$($lt,)? K, V> Iterator for $name<$($lt,)? K, V> {
                type Item = $item;
                fn next(&mut self) -> Option<$item> {
                    let $p = self.0.step();
                    if $p.is_null() {
                        None
                    } else {
                        Some(unsafe { $e })
                    }
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (0, Some(N))
                }
            }
            impl<$($lt,)? K, V> ExactSizeIterator for $name<$($lt,)? K, V> {
                fn len(&self) -> usize {
                    self.0.left()
                }
            }
            impl<$($lt,)? K, V> core::iter::FusedIterator for $name<$($lt,)? K, V> {}
            impl<$($lt,)? K, V> fmt::Debug for $name<$($lt,)? K, V> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($name))
                }
            }
        };
    }
    macro_rules! proj_iter {
        ($name:ident<$($lt:lifetime)?>, $item:ty, $pat:pat => $e:expr) => {
            impl<$($lt,)? K, V> Iterator for $name<$($lt,)? K, V> {
                type Item = $item;
                fn next(&mut self) -> Option<$item> {
                    match self.0.next() {
                        Some($pat) => Some($e),
                        None => None,
                    }
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (0, Some(N))
                }
            }
            impl<$($lt,)? K, V> ExactSizeIterator for $name<$($lt,)? K, V> {
                fn len(&self) -> usize {
                    self.0.len()
                }
            }
            impl<$($lt,)? K, V> core::iter::FusedIterator for $name<$($lt,)? K, V> {}
            impl<$($lt,)? K, V> fmt::Debug for $name<$($lt,)? K, V> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($name))
                }
            }
        };
    }
    raw_iter!(Iter<'a>, (&'a K, &'a V), p => (&(*p).0, &(*p).1));
    raw_iter!(IterMut<'a>, (&'a K, &'a mut V), p => (&(*p).0, &mut (*p).1));
    raw_iter!(IntoIter<>, (K, V), p => core::ptr::read(p));
    raw_iter!(Drain<'a>, (K, V), p => core::ptr::read(p));
    proj_iter!(Keys<'a>, &'a K, (k, _) => k);
    proj_iter!(Values<'a>, &'a V, (_, v) => v);
    proj_iter!(ValuesMut<'a>, &'a mut V, (_, v) => v);
    proj_iter!(IntoKeys<>, K, (k, _) => k);
    proj_iter!(IntoValues<>, V, (_, v) => v);

    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            IntoIter(RawIter { slots: self.slots, i: 0 })
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }

    pub enum Entry<'a, K, V, S = ()> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }
    pub struct OccupiedEntry<'a, K, V, S = ()> {
        map: &'a mut HashMap<K, V, S>,
        p: Slot<K, V>,
    }
    pub struct VacantEntry<'a, K, V, S = ()> {
        map: &'a mut HashMap<K, V, S>,
        key: K,
    }
    impl<K, V, S> fmt::Debug for Entry<'_, K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Entry")
        }
    }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            unsafe { &(*self.p).0 }
        }
        pub fn get(&self) -> &V {
            unsafe { &(*self.p).1 }
        }
        pub fn get_mut(&mut self) -> &mut V {
            unsafe { &mut (*self.p).1 }
        }
        pub fn into_mut(self) -> &'a mut V {
            unsafe { &mut (*self.p).1 }
        }
        pub fn insert(&mut self, v: V) -> V {
            core::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.remove_entry().1
        }
        pub fn remove_entry(self) -> (K, V) {
            let p = self.p;
            self.map.unlink(p);
            unsafe { core::ptr::read(p) }
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> VacantEntry<'a, K, V, S> {
        pub fn insert(self, v: V) -> &'a mut V {
            let Self { map, key } = self;
            let p = map.push(key, v);
            unsafe { &mut (*p).1 }
        }
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.key);
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut o) => {
                    f(o.get_mut());
                    Entry::Occupied(o)
                }
                e => e,
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(o) => o.key(),
                Entry::Vacant(e) => &e.key,
            }
        }
    }

    #[cfg(feature = "serde")]
    mod serde_impl {
        use super::*;
        use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
        impl<K: Serialize, V: Serialize, S> Serialize for HashMap<K, V, S> {
            fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
                ser::Serializer::collect_map(s, self.iter())
            }
        }
        impl<'de, K, V, S> Deserialize<'de> for HashMap<K, V, S>
        where
            K: Deserialize<'de> + Eq + Hash,
            V: Deserialize<'de>,
            S: BuildHasher + Default,
        {
            fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
                Err(<D::Error as de::Error>::custom("model map"))
            }
        }
    }
}

pub mod hash_set {
    use super::hash_map::{self, HashMap};
    use core::{
        borrow::Borrow,
        fmt,
        hash::{BuildHasher, Hash},
    };

    pub type Iter<'a, T> = hash_map::Keys<'a, T, ()>;
    pub type IntoIter<T> = hash_map::IntoKeys<T, ()>;

    #[derive(Clone)]
    pub struct HashSet<T, S = ()> {
        m: HashMap<T, (), S>,
    }
    impl<T, S: Default> Default for HashSet<T, S> {
        fn default() -> Self {
            Self { m: HashMap::default() }
        }
    }
    impl<T, S> HashSet<T, S> {
        pub const fn with_hasher(s: S) -> Self {
            Self { m: HashMap::with_hasher(s) }
        }
        pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
            Self { m: HashMap::with_hasher(s) }
        }
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn clear(&mut self) {
            self.m.clear()
        }
        pub fn iter(&self) -> hash_map::Keys<'_, T, ()> {
            self.m.keys()
        }
        pub fn drain(&mut self) -> Drain<'_, T> {
            Drain(self.m.drain())
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.m.retain(|k, _| f(k))
        }
    }
    pub struct Drain<'a, T>(hash_map::Drain<'a, T, ()>);
    impl<T> Iterator for Drain<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.next().map(|(k, _)| k)
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
        pub fn reserve(&mut self, _n: usize) {}
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.contains_key(k)
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.m.get_key_value(k).map(|(k, _)| k)
        }
        pub fn insert(&mut self, k: T) -> bool {
            if self.m.contains_key(&k) {
                false
            } else {
                self.m.push(k, ());
                true
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.remove(k).is_some()
        }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.m.remove_entry(k).map(|(k, _)| k)
        }
        pub fn is_subset(&self, o: &Self) -> bool {
            self.iter().all(|k| o.contains(k))
        }
    }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool {
            self.m == o.m
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut m = Self::default();
            for k in it {
                m.insert(k);
            }
            m
        }
    }
    impl<T: Eq + Hash, S: BuildHasher + Default, const N: usize> From<[T; N]> for HashSet<T, S> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for k in it {
                self.insert(k);
            }
        }
    }
    impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for k in it {
                self.insert(*k);
            }
        }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = hash_map::IntoKeys<T, ()>;
        fn into_iter(self) -> Self::IntoIter {
            self.m.into_keys()
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = hash_map::Keys<'a, T, ()>;
        fn into_iter(self) -> Self::IntoIter {
            self.m.keys()
        }
    }

    #[cfg(feature = "serde")]
    mod serde_impl {
        use super::*;
        use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
        impl<T: Serialize, S> Serialize for HashSet<T, S> {
            fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
                ser::Serializer::collect_seq(s, self.iter())
            }
        }
        impl<'de, T, S> Deserialize<'de> for HashSet<T, S>
        where
            T: Deserialize<'de> + Eq + Hash,
            S: BuildHasher + Default,
        {
            fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
                Err(<D::Error as de::Error>::custom("model set"))
            }
        }
    }
}

pub use hash_map::HashMap;
pub use hash_set::HashSet;
