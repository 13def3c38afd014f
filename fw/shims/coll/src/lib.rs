//! Stand-ins for std::collections in the server: the same sets and maps, held as
//! a short list of slots.  More than `SLOTS` entries exceed the model.
use std::borrow::Borrow;
use std::hash::Hash;

pub use std::collections::VecDeque;

pub const SLOTS: usize = 4;

#[derive(Clone, Debug)]
pub struct HashMap<K, V> {
    slots: [Option<(K, V)>; SLOTS],
}

impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        HashMap { slots: [None, None, None, None] }
    }
}

impl<K: Eq, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    fn at<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut found = None;
        macro_rules! each { ($($i:literal)*) => {$( if let Some((x, _)) = &self.slots[$i] { if x.borrow() == k { found = Some($i); } } )*}; }
        each!(0 1 2 3);
        found
    }
    fn free(&self) -> usize {
        let mut found = SLOTS;
        macro_rules! each { ($($i:literal)*) => {$( if self.slots[$i].is_none() { found = $i; } )*}; }
        each!(3 2 1 0);
        assert!(found < SLOTS, "MODEL-BOUND: more entries than the model holds");
        found
    }
    pub fn len(&self) -> usize {
        let mut n = 0;
        macro_rules! each { ($($i:literal)*) => {$( if self.slots[$i].is_some() { n += 1; } )*}; }
        each!(0 1 2 3);
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        self.slots = [None, None, None, None];
    }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.at(k).is_some()
    }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        match self.at(k) {
            Some(i) => self.slots[i].as_ref().map(|e| &e.1),
            None => None,
        }
    }
    pub fn get_mut<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.at(k) {
            Some(i) => self.slots[i].as_mut().map(|e| &mut e.1),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.at(&k) {
            Some(i) => self.slots[i].as_mut().map(|e| core::mem::replace(&mut e.1, v)),
            None => {
                let i = self.free();
                self.slots[i] = Some((k, v));
                None
            }
        }
    }
    pub fn remove_entry<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        match self.at(k) {
            Some(i) => self.slots[i].take(),
            None => None,
        }
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|e| e.1)
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        macro_rules! each { ($($i:literal)*) => {$(
            let keep = match &mut self.slots[$i] { Some((k, v)) => f(k, v), None => true };
            if !keep { self.slots[$i] = None; }
        )*}; }
        each!(0 1 2 3);
    }
}

#[derive(Clone, Debug)]
pub struct HashSet<T> {
    map: HashMap<T, ()>,
}

impl<T> Default for HashSet<T> {
    fn default() -> Self {
        HashSet { map: HashMap::default() }
    }
}

impl<T: Eq> HashSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear()
    }
    pub fn contains<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn insert(&mut self, k: T) -> bool {
        if self.map.at(&k).is_some() {
            return false;
        }
        self.map.insert(k, ()).is_none()
    }
    pub fn replace(&mut self, k: T) -> Option<T>
    where
        T: Hash,
    {
        let old = self.take(&k);
        self.map.insert(k, ());
        old
    }
    pub fn take<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.map.remove_entry(k).map(|e| e.0)
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.map.remove_entry(k).is_some()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.map.retain(|k, _| f(k))
    }
}

pub type BTreeSet<T> = HashSet<T>;
pub type BTreeMap<K, V> = HashMap<K, V>;

pub mod hash_map {
    pub use super::HashMap;
}
pub mod hash_set {
    pub use super::HashSet;
}

/// std::sync for one thread: a counted pointer without a count (nothing it holds is
/// ever dropped), and locks that are free when they are taken.
pub mod sync {
    pub use std::sync::*;
    use std::cell::{Cell, UnsafeCell};
    use std::ops::{Deref, DerefMut};

    pub struct Arc<T: ?Sized + 'static>(&'static T);
    impl<T> Arc<T> {
        pub fn new(v: T) -> Self {
            Arc(Box::leak(Box::new(v)))
        }
    }
    impl<T: ?Sized> Arc<T> {
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            core::ptr::addr_eq(a.0, b.0)
        }
    }
    impl<T: ?Sized> Clone for Arc<T> {
        fn clone(&self) -> Self {
            Arc(self.0)
        }
    }
    impl<T: ?Sized> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    impl<T: ?Sized> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            self.0
        }
    }
    impl<T: ?Sized> std::borrow::Borrow<T> for Arc<T> {
        fn borrow(&self) -> &T {
            self.0
        }
    }
    impl<T> From<T> for Arc<T> {
        fn from(v: T) -> Self {
            Arc::new(v)
        }
    }

    macro_rules! lock {
        ($Lock:ident, $Guard:ident) => {
            pub struct $Lock<T> {
                held: Cell<bool>,
                v: UnsafeCell<T>,
            }
            pub struct $Guard<'a, T>(&'a $Lock<T>);
            unsafe impl<T: Send> Send for $Lock<T> {}
            unsafe impl<T: Send> Sync for $Lock<T> {}
            impl<T> $Lock<T> {
                pub const fn new(v: T) -> Self {
                    $Lock { held: Cell::new(false), v: UnsafeCell::new(v) }
                }
                fn take(&self) -> LockResult<$Guard<'_, T>> {
                    assert!(!self.held.get(), "a lock is taken while it is held: the server would block");
                    self.held.set(true);
                    Ok($Guard(self))
                }
            }
            impl<T: Default> Default for $Lock<T> {
                fn default() -> Self {
                    $Lock::new(T::default())
                }
            }
            impl<T> Deref for $Guard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    unsafe { &*self.0.v.get() }
                }
            }
            impl<T> DerefMut for $Guard<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    unsafe { &mut *self.0.v.get() }
                }
            }
            impl<T> Drop for $Guard<'_, T> {
                fn drop(&mut self) {
                    self.0.held.set(false);
                }
            }
        };
    }
    lock!(RwLock, RwLockWriteGuard);
    lock!(Mutex, MutexGuard);
    pub type RwLockReadGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> RwLock<T> {
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.take()
        }
        pub fn read(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.take()
        }
    }
    impl<T> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.take()
        }
    }
}

/// std::io's error without its boxed causes.
pub mod io {
    pub use std::io::ErrorKind;
    #[derive(Debug)]
    pub struct Error(ErrorKind);
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn kind(&self) -> ErrorKind {
            self.0
        }
        pub fn new<E>(k: ErrorKind, _: E) -> Self {
            Error(k)
        }
        pub fn other<E>(_: E) -> Self {
            Error(ErrorKind::Other)
        }
    }
    impl From<ErrorKind> for Error {
        fn from(k: ErrorKind) -> Self {
            Error(k)
        }
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("i/o error")
        }
    }
    impl std::error::Error for Error {}
}

/// Awaiting, in the model: the future runs to its end on the stack, at once.  What it
/// waits for is what the modelled network and clock let happen at that very point.
/// (A coroutine kept in another one's memory is out of the solver's reach.)
pub trait AtOnce: std::future::Future + Sized {
    fn at_once(self) -> Self::Output {
        let mut f = core::mem::ManuallyDrop::new(self);
        match poll(unsafe { core::pin::Pin::new_unchecked(&mut *f) }) {
            std::task::Poll::Ready(v) => v,
            std::task::Poll::Pending => panic!("MODEL-BOUND: a future that waits for something the model has not"),
        }
    }
}
impl<F: std::future::Future> AtOnce for F {}

use std::task::{RawWaker, RawWakerVTable, Waker};
const VTABLE: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(core::ptr::null(), &VTABLE)
}
fn nothing(_: *const ()) {}
/// Polls once.
pub fn poll<F: std::future::Future + ?Sized>(f: core::pin::Pin<&mut F>) -> std::task::Poll<F::Output> {
    let waker = core::mem::ManuallyDrop::new(unsafe { Waker::from_raw(clone(core::ptr::null())) });
    let mut cx = std::task::Context::from_waker(&waker);
    f.poll(&mut cx)
}
