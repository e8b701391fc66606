From 846a3d7d5b2ae090f8ceda754d085be76e77f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 01/47] sim seam: guarded simulated std for parasol_concurrency
 (cfg spf_sim)

---
 parasol_concurrency/src/lib.rs |   7 +
 parasol_concurrency/src/sim.rs | 943 +++++++++++++++++++++++++++++++++
 2 files changed, 950 insertions(+)
 create mode 100644 parasol_concurrency/src/sim.rs

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..caf5f5b 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -1,7 +1,14 @@
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 //! Contains primitives for synchronizing and safely managing concurrency.
 
+#[cfg(spf_sim)]
+#[doc(hidden)]
+pub mod sim;
+#[cfg(spf_sim)]
+use sim::std;
+
 use std::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
diff --git a/parasol_concurrency/src/sim.rs b/parasol_concurrency/src/sim.rs
new file mode 100644
index 0000000..135d953
--- /dev/null
+++ b/parasol_concurrency/src/sim.rs
@@ -0,0 +1,943 @@
+//! Deterministic-simulation seam, compiled only with `--cfg spf_sim`.
+//!
+//! [`std`] mirrors the standard library, with the synchronization primitives replaced by
+//! wrappers that report every operation to an installed [`Runtime`]. A source file opts in with
+//! `#[cfg(spf_sim)] use parasol_concurrency::sim::std;`, which shadows the real `std` in that file.
+//! Without an installed runtime, or on threads it doesn't manage, everything passes straight
+//! through to the real standard library.
+#![allow(missing_docs)]
+
+use ::std::sync::{
+    OnceLock,
+    atomic::{AtomicUsize as StdAtomicUsize, Ordering},
+};
+
+/// What an atomic operation did.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Access {
+    Load,
+    Store,
+    Rmw,
+}
+
+/// The simulator that decides which thread runs and when.
+pub trait Runtime: Sync {
+    /// Is the calling thread managed by the simulator?
+    fn managed(&self) -> bool;
+    /// A scheduling point preceding operation `kind` on the object at `addr`.
+    fn point(&self, kind: &'static str, addr: usize);
+    /// The outcome of an atomic operation. `progress` is false for an operation that left the
+    /// object unchanged (a load or a failed compare-exchange).
+    fn atomic(&self, addr: usize, access: Access, order: Ordering, progress: bool, val: u64);
+    /// A memory fence.
+    fn fence(&self, order: Ordering);
+    /// A lock-like object was acquired.
+    fn acquire(&self, addr: usize);
+    /// A lock-like object was released.
+    fn release(&self, addr: usize);
+    /// Block until `wake(addr)`; may return early.
+    fn block(&self, kind: &'static str, addr: usize);
+    /// Wake everything blocked on `addr`.
+    fn wake(&self, addr: usize);
+    /// Should this weak operation fail spuriously?
+    fn spurious(&self) -> bool;
+    /// The object at `addr` no longer exists.
+    fn forget(&self, addr: usize);
+}
+
+static RUNTIME: OnceLock<&'static dyn Runtime> = OnceLock::new();
+
+/// Install the simulator. May only be called once.
+pub fn install(rt: &'static dyn Runtime) {
+    let _ = RUNTIME.set(rt);
+}
+
+#[inline]
+fn rt() -> Option<&'static dyn Runtime> {
+    match RUNTIME.get() {
+        Some(r) if r.managed() => Some(*r),
+        _ => None,
+    }
+}
+
+fn fresh_id() -> usize {
+    static NEXT: StdAtomicUsize = StdAtomicUsize::new(1);
+    // Odd and far above any address, so these never collide with object addresses.
+    (usize::MAX / 2) | (NEXT.fetch_add(1, Ordering::Relaxed) << 1) | 1
+}
+
+/// The standard library with simulated synchronization.
+pub mod std {
+    #[allow(unused_imports)]
+    pub use ::std::*;
+
+    pub mod hint {
+        #[allow(unused_imports)]
+        pub use ::std::hint::*;
+
+        pub fn spin_loop() {
+            match super::super::rt() {
+                Some(r) => r.point("spin", 0),
+                None => ::std::hint::spin_loop(),
+            }
+        }
+    }
+
+    pub mod thread {
+        #[allow(unused_imports)]
+        pub use ::std::thread::*;
+
+        pub fn yield_now() {
+            match super::super::rt() {
+                Some(r) => r.point("yield", 0),
+                None => ::std::thread::yield_now(),
+            }
+        }
+
+        pub fn sleep(d: ::std::time::Duration) {
+            match super::super::rt() {
+                Some(r) => r.point("sleep", 0),
+                None => ::std::thread::sleep(d),
+            }
+        }
+    }
+
+    pub mod sync {
+        #[allow(unused_imports)]
+        pub use ::std::sync::*;
+
+        pub use super::super::locks::{
+            Condvar, Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
+        };
+
+        pub mod atomic {
+            #[allow(unused_imports)]
+            pub use ::std::sync::atomic::*;
+
+            pub use super::super::super::atomics::{
+                AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU32, AtomicU64,
+                AtomicUsize, fence,
+            };
+        }
+
+        pub mod mpsc {
+            #[allow(unused_imports)]
+            pub use ::std::sync::mpsc::*;
+
+            pub use super::super::super::channel::{
+                Receiver, Sender, SyncSender, channel, sync_channel,
+            };
+        }
+    }
+}
+
+mod atomics {
+    use super::{Access, rt};
+    use ::std::sync::atomic::{self as real, Ordering};
+
+    pub fn fence(order: Ordering) {
+        match rt() {
+            Some(r) => {
+                r.point("fence", 0);
+                r.fence(order);
+            }
+            None => real::fence(order),
+        }
+    }
+
+    macro_rules! sim_atomic {
+        ($name:ident, $t:ty, $to64:expr) => {
+            #[derive(Default)]
+            pub struct $name {
+                inner: real::$name,
+            }
+
+            impl $name {
+                pub const fn new(v: $t) -> Self {
+                    Self {
+                        inner: real::$name::new(v),
+                    }
+                }
+
+                fn addr(&self) -> usize {
+                    &self.inner as *const _ as usize
+                }
+
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.inner.get_mut()
+                }
+
+                pub fn into_inner(self) -> $t {
+                    self.inner.load(Ordering::SeqCst)
+                }
+
+                pub fn load(&self, o: Ordering) -> $t {
+                    match rt() {
+                        Some(r) => {
+                            r.point("load", self.addr());
+                            let v = self.inner.load(Ordering::SeqCst);
+                            r.atomic(self.addr(), Access::Load, o, false, $to64(v));
+                            v
+                        }
+                        None => self.inner.load(o),
+                    }
+                }
+
+                pub fn store(&self, v: $t, o: Ordering) {
+                    match rt() {
+                        Some(r) => {
+                            r.point("store", self.addr());
+                            self.inner.store(v, Ordering::SeqCst);
+                            r.atomic(self.addr(), Access::Store, o, true, $to64(v));
+                        }
+                        None => self.inner.store(v, o),
+                    }
+                }
+
+                pub fn swap(&self, v: $t, o: Ordering) -> $t {
+                    match rt() {
+                        Some(r) => {
+                            r.point("swap", self.addr());
+                            let old = self.inner.swap(v, Ordering::SeqCst);
+                            r.atomic(self.addr(), Access::Rmw, o, old != v, $to64(old));
+                            old
+                        }
+                        None => self.inner.swap(v, o),
+                    }
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    cur: $t,
+                    new: $t,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$t, $t> {
+                    match rt() {
+                        Some(r) => {
+                            r.point("cas", self.addr());
+                            let res = self.inner.compare_exchange(
+                                cur,
+                                new,
+                                Ordering::SeqCst,
+                                Ordering::SeqCst,
+                            );
+                            match res {
+                                Ok(v) => {
+                                    r.atomic(self.addr(), Access::Rmw, ok, true, $to64(v));
+                                }
+                                Err(v) => {
+                                    r.atomic(self.addr(), Access::Load, err, false, $to64(v));
+                                }
+                            }
+                            res
+                        }
+                        None => self.inner.compare_exchange(cur, new, ok, err),
+                    }
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    cur: $t,
+                    new: $t,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$t, $t> {
+                    match rt() {
+                        Some(r) if r.spurious() => {
+                            r.point("cas_weak", self.addr());
+                            let v = self.inner.load(Ordering::SeqCst);
+                            r.atomic(self.addr(), Access::Load, err, false, $to64(v));
+                            Err(v)
+                        }
+                        Some(_) => self.compare_exchange(cur, new, ok, err),
+                        None => self.inner.compare_exchange_weak(cur, new, ok, err),
+                    }
+                }
+
+                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
+                    &self,
+                    set: Ordering,
+                    fetch: Ordering,
+                    mut f: F,
+                ) -> Result<$t, $t> {
+                    let mut prev = self.load(fetch);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set, fetch) {
+                            Ok(x) => return Ok(x),
+                            Err(p) => prev = p,
+                        }
+                    }
+                    Err(prev)
+                }
+            }
+
+            impl From<$t> for $name {
+                fn from(v: $t) -> Self {
+                    Self::new(v)
+                }
+            }
+
+            impl ::std::fmt::Debug for $name {
+                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
+                    self.inner.fmt(f)
+                }
+            }
+
+            impl Drop for $name {
+                fn drop(&mut self) {
+                    if let Some(r) = rt() {
+                        r.forget(self.addr());
+                    }
+                }
+            }
+        };
+    }
+
+    macro_rules! sim_fetch {
+        ($name:ident, $t:ty, $to64:expr, $($op:ident),+) => {
+            impl $name {
+                $(
+                    pub fn $op(&self, v: $t, o: Ordering) -> $t {
+                        match rt() {
+                            Some(r) => {
+                                r.point(stringify!($op), self.addr());
+                                let old = self.inner.$op(v, Ordering::SeqCst);
+                                r.atomic(self.addr(), Access::Rmw, o, true, $to64(old));
+                                old
+                            }
+                            None => self.inner.$op(v, o),
+                        }
+                    }
+                )+
+            }
+        };
+    }
+
+    macro_rules! sim_int {
+        ($name:ident, $t:ty) => {
+            sim_atomic!($name, $t, |x: $t| x as u64);
+            sim_fetch!(
+                $name,
+                $t,
+                |x: $t| x as u64,
+                fetch_add,
+                fetch_sub,
+                fetch_and,
+                fetch_or,
+                fetch_xor,
+                fetch_nand,
+                fetch_max,
+                fetch_min
+            );
+        };
+    }
+
+    sim_int!(AtomicUsize, usize);
+    sim_int!(AtomicIsize, isize);
+    sim_int!(AtomicU64, u64);
+    sim_int!(AtomicI64, i64);
+    sim_int!(AtomicU32, u32);
+    sim_int!(AtomicI32, i32);
+    sim_int!(AtomicU8, u8);
+    sim_atomic!(AtomicBool, bool, |x: bool| x as u64);
+    sim_fetch!(
+        AtomicBool,
+        bool,
+        |x: bool| x as u64,
+        fetch_and,
+        fetch_or,
+        fetch_xor,
+        fetch_nand
+    );
+}
+
+mod locks {
+    use super::rt;
+    use ::std::{
+        fmt,
+        ops::{Deref, DerefMut},
+        sync::{
+            self as real, LockResult, PoisonError, TryLockError, TryLockResult,
+            atomic::{AtomicBool, Ordering},
+        },
+    };
+
+    macro_rules! guard {
+        ($name:ident, $real:ident, $($m:ident)?) => {
+            pub struct $name<'a, T: ?Sized> {
+                inner: Option<real::$real<'a, T>>,
+                addr: usize,
+                _cell: &'a (),
+            }
+
+            impl<T: ?Sized> Deref for $name<'_, T> {
+                type Target = T;
+
+                fn deref(&self) -> &T {
+                    self.inner.as_ref().unwrap()
+                }
+            }
+
+            $(
+                impl<T: ?Sized> DerefMut for $name<'_, T> {
+                    fn deref_mut(&mut self) -> &mut T {
+                        self.inner.$m().unwrap()
+                    }
+                }
+            )?
+
+            impl<T: ?Sized> Drop for $name<'_, T> {
+                fn drop(&mut self) {
+                    let r = rt();
+                    if let Some(r) = r {
+                        r.release(self.addr);
+                    }
+                    drop(self.inner.take());
+                    if let Some(r) = r {
+                        r.wake(self.addr);
+                    }
+                }
+            }
+
+            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    (**self).fmt(f)
+                }
+            }
+
+            impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    (**self).fmt(f)
+                }
+            }
+        };
+    }
+
+    guard!(MutexGuard, MutexGuard, as_mut);
+    guard!(RwLockReadGuard, RwLockReadGuard,);
+    guard!(RwLockWriteGuard, RwLockWriteGuard, as_mut);
+
+    macro_rules! lock_ops {
+        ($guard:ident, $lock:ident, $try:ident, $kind:literal) => {
+            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
+                if let Some(r) = rt() {
+                    r.point(concat!("try_", $kind), self.addr());
+                }
+                self.attempt(self.inner.$try(), |g, addr| $guard {
+                    inner: Some(g),
+                    addr,
+                    _cell: &(),
+                })
+            }
+
+            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
+                let wrap = |g, addr| $guard {
+                    inner: Some(g),
+                    addr,
+                    _cell: &(),
+                };
+                let Some(r) = rt() else {
+                    return match self.inner.$lock() {
+                        Ok(g) => Ok(wrap(g, self.addr())),
+                        Err(e) => Err(PoisonError::new(wrap(e.into_inner(), self.addr()))),
+                    };
+                };
+                r.point($kind, self.addr());
+                loop {
+                    match self.attempt(self.inner.$try(), wrap) {
+                        Ok(g) => return Ok(g),
+                        Err(TryLockError::Poisoned(e)) => return Err(e),
+                        Err(TryLockError::WouldBlock) => r.block($kind, self.addr()),
+                    }
+                }
+            }
+        };
+    }
+
+    #[derive(Default)]
+    pub struct Mutex<T: ?Sized> {
+        inner: real::Mutex<T>,
+    }
+
+    #[derive(Default)]
+    pub struct RwLock<T: ?Sized> {
+        inner: real::RwLock<T>,
+    }
+
+    macro_rules! lock_common {
+        ($name:ident) => {
+            impl<T> $name<T> {
+                pub const fn new(v: T) -> Self {
+                    Self {
+                        inner: real::$name::new(v),
+                    }
+                }
+
+                pub fn into_inner(self) -> LockResult<T> {
+                    self.inner.into_inner()
+                }
+            }
+
+            impl<T: ?Sized> $name<T> {
+                fn addr(&self) -> usize {
+                    &self.inner as *const _ as *const u8 as usize
+                }
+
+                fn attempt<'a, G, W>(
+                    &'a self,
+                    res: Result<G, TryLockError<G>>,
+                    wrap: impl Fn(G, usize) -> W,
+                ) -> TryLockResult<W> {
+                    match res {
+                        Ok(g) => {
+                            if let Some(r) = rt() {
+                                r.acquire(self.addr());
+                            }
+                            Ok(wrap(g, self.addr()))
+                        }
+                        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+                            PoisonError::new(wrap(e.into_inner(), self.addr())),
+                        )),
+                        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                    }
+                }
+
+                pub fn get_mut(&mut self) -> LockResult<&mut T> {
+                    self.inner.get_mut()
+                }
+
+                pub fn is_poisoned(&self) -> bool {
+                    self.inner.is_poisoned()
+                }
+
+                pub fn clear_poison(&self) {
+                    self.inner.clear_poison()
+                }
+            }
+
+            impl<T> From<T> for $name<T> {
+                fn from(v: T) -> Self {
+                    Self::new(v)
+                }
+            }
+
+            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    self.inner.fmt(f)
+                }
+            }
+        };
+    }
+
+    lock_common!(Mutex);
+    lock_common!(RwLock);
+
+    impl<T: ?Sized> Mutex<T> {
+        lock_ops!(MutexGuard, lock, try_lock, "mutex");
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        lock_ops!(RwLockReadGuard, read, try_read, "read");
+        lock_ops!(RwLockWriteGuard, write, try_write, "write");
+    }
+
+    #[derive(Default, Debug)]
+    pub struct Condvar {
+        inner: real::Condvar,
+    }
+
+    impl Condvar {
+        pub const fn new() -> Self {
+            Self {
+                inner: real::Condvar::new(),
+            }
+        }
+
+        fn addr(&self) -> usize {
+            &self.inner as *const _ as usize
+        }
+
+        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
+            let addr = g.addr;
+            match rt() {
+                None => {
+                    let inner = g.inner.take().unwrap();
+                    let inner = self.inner.wait(inner).unwrap_or_else(|e| e.into_inner());
+                    g.inner = Some(inner);
+                    Ok(g)
+                }
+                Some(r) => {
+                    // The guard doesn't remember its mutex, but the real one does.
+                    let inner = g.inner.take().unwrap();
+                    let m: *const real::Mutex<T> = addr as *const _;
+                    r.release(addr);
+                    drop(inner);
+                    r.wake(addr);
+                    r.block("condvar", self.addr());
+                    loop {
+                        // Safety: the guard's lifetime keeps its mutex alive, and the guard's
+                        // address is that of the mutex.
+                        match unsafe { &*m }.try_lock() {
+                            Ok(inner) => {
+                                r.acquire(addr);
+                                g.inner = Some(inner);
+                                return Ok(g);
+                            }
+                            Err(TryLockError::Poisoned(e)) => {
+                                g.inner = Some(e.into_inner());
+                                return Err(PoisonError::new(g));
+                            }
+                            Err(TryLockError::WouldBlock) => r.block("mutex", addr),
+                        }
+                    }
+                }
+            }
+        }
+
+        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
+            &self,
+            mut g: MutexGuard<'a, T>,
+            mut f: F,
+        ) -> LockResult<MutexGuard<'a, T>> {
+            while f(&mut *g) {
+                g = self.wait(g)?;
+            }
+            Ok(g)
+        }
+
+        pub fn notify_one(&self) {
+            self.notify_all();
+        }
+
+        pub fn notify_all(&self) {
+            if let Some(r) = rt() {
+                r.point("notify", self.addr());
+                r.wake(self.addr());
+            }
+            self.inner.notify_all();
+        }
+    }
+
+    pub struct OnceLock<T> {
+        inner: real::OnceLock<T>,
+        busy: AtomicBool,
+    }
+
+    impl<T> OnceLock<T> {
+        pub const fn new() -> Self {
+            Self {
+                inner: real::OnceLock::new(),
+                busy: AtomicBool::new(false),
+            }
+        }
+
+        fn addr(&self) -> usize {
+            &self.busy as *const _ as usize
+        }
+
+        pub fn get(&self) -> Option<&T> {
+            if let Some(r) = rt() {
+                r.point("once_get", self.addr());
+                let v = self.inner.get();
+                if v.is_some() {
+                    r.acquire(self.addr());
+                }
+                return v;
+            }
+            self.inner.get()
+        }
+
+        pub fn get_mut(&mut self) -> Option<&mut T> {
+            self.inner.get_mut()
+        }
+
+        pub fn into_inner(self) -> Option<T> {
+            self.inner.into_inner()
+        }
+
+        pub fn take(&mut self) -> Option<T> {
+            self.inner.take()
+        }
+
+        pub fn set(&self, v: T) -> Result<(), T> {
+            let Some(r) = rt() else {
+                return self.inner.set(v);
+            };
+            r.point("once_set", self.addr());
+            while self.busy.load(Ordering::SeqCst) {
+                r.block("once", self.addr());
+            }
+            let res = self.inner.set(v);
+            if res.is_ok() {
+                r.release(self.addr());
+            }
+            r.acquire(self.addr());
+            res
+        }
+
+        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
+            let Some(r) = rt() else {
+                return self.inner.get_or_init(f);
+            };
+            struct Busy<'a>(&'a AtomicBool, usize);
+            impl Drop for Busy<'_> {
+                fn drop(&mut self) {
+                    self.0.store(false, Ordering::SeqCst);
+                    if let Some(r) = rt() {
+                        r.wake(self.1);
+                    }
+                }
+            }
+            r.point("once_init", self.addr());
+            let mut f = Some(f);
+            loop {
+                if let Some(v) = self.inner.get() {
+                    r.acquire(self.addr());
+                    return v;
+                }
+                if !self.busy.swap(true, Ordering::SeqCst) {
+                    let busy = Busy(&self.busy, self.addr());
+                    let v = (f.take().unwrap())();
+                    let _ = self.inner.set(v);
+                    r.release(self.addr());
+                    drop(busy);
+                } else {
+                    r.block("once", self.addr());
+                }
+            }
+        }
+    }
+
+    impl<T> Default for OnceLock<T> {
+        fn default() -> Self {
+            Self::new()
+        }
+    }
+
+    impl<T: Clone> Clone for OnceLock<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                busy: AtomicBool::new(false),
+            }
+        }
+    }
+
+    impl<T> From<T> for OnceLock<T> {
+        fn from(v: T) -> Self {
+            Self {
+                inner: real::OnceLock::from(v),
+                busy: AtomicBool::new(false),
+            }
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.inner.fmt(f)
+        }
+    }
+}
+
+mod channel {
+    use super::{fresh_id, rt};
+    use ::std::{
+        fmt,
+        mem::ManuallyDrop,
+        sync::mpsc::{
+            self as real, RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
+        },
+        time::Duration,
+    };
+
+    pub struct Sender<T> {
+        inner: ManuallyDrop<real::Sender<T>>,
+        id: usize,
+    }
+
+    pub struct SyncSender<T> {
+        inner: ManuallyDrop<real::SyncSender<T>>,
+        id: usize,
+    }
+
+    pub struct Receiver<T> {
+        inner: ManuallyDrop<real::Receiver<T>>,
+        id: usize,
+    }
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let (s, r) = real::channel();
+        let id = fresh_id();
+        (
+            Sender {
+                inner: ManuallyDrop::new(s),
+                id,
+            },
+            Receiver {
+                inner: ManuallyDrop::new(r),
+                id,
+            },
+        )
+    }
+
+    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
+        let (s, r) = real::sync_channel(bound);
+        let id = fresh_id();
+        (
+            SyncSender {
+                inner: ManuallyDrop::new(s),
+                id,
+            },
+            Receiver {
+                inner: ManuallyDrop::new(r),
+                id,
+            },
+        )
+    }
+
+    macro_rules! endpoint {
+        ($name:ident) => {
+            impl<T> Drop for $name<T> {
+                fn drop(&mut self) {
+                    // Safety: dropped exactly once, here.
+                    unsafe { ManuallyDrop::drop(&mut self.inner) };
+                    if let Some(r) = rt() {
+                        r.wake(self.id);
+                    }
+                }
+            }
+
+            impl<T> fmt::Debug for $name<T> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    f.write_str(stringify!($name))
+                }
+            }
+        };
+    }
+
+    endpoint!(Sender);
+    endpoint!(SyncSender);
+    endpoint!(Receiver);
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                id: self.id,
+            }
+        }
+    }
+
+    impl<T> Clone for SyncSender<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                id: self.id,
+            }
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
+            let Some(r) = rt() else {
+                return self.inner.send(v);
+            };
+            r.point("send", self.id);
+            r.release(self.id);
+            let res = self.inner.send(v);
+            r.wake(self.id);
+            res
+        }
+    }
+
+    impl<T> SyncSender<T> {
+        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
+            let Some(r) = rt() else {
+                return self.inner.send(v);
+            };
+            r.point("sync_send", self.id);
+            r.release(self.id);
+            let mut v = v;
+            loop {
+                match self.inner.try_send(v) {
+                    Ok(()) => {
+                        r.wake(self.id);
+                        return Ok(());
+                    }
+                    Err(TrySendError::Disconnected(x)) => return Err(SendError(x)),
+                    Err(TrySendError::Full(x)) => {
+                        v = x;
+                        r.block("sync_send", self.id);
+                    }
+                }
+            }
+        }
+
+        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
+            let Some(r) = rt() else {
+                return self.inner.try_send(v);
+            };
+            r.point("try_send", self.id);
+            r.release(self.id);
+            let res = self.inner.try_send(v);
+            r.wake(self.id);
+            res
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn recv(&self) -> Result<T, RecvError> {
+            let Some(r) = rt() else {
+                return self.inner.recv();
+            };
+            r.point("recv", self.id);
+            loop {
+                match self.inner.try_recv() {
+                    Ok(v) => {
+                        r.acquire(self.id);
+                        r.wake(self.id);
+                        return Ok(v);
+                    }
+                    Err(TryRecvError::Disconnected) => return Err(RecvError),
+                    Err(TryRecvError::Empty) => r.block("recv", self.id),
+                }
+            }
+        }
+
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            let Some(r) = rt() else {
+                return self.inner.try_recv();
+            };
+            r.point("try_recv", self.id);
+            let res = self.inner.try_recv();
+            if res.is_ok() {
+                r.acquire(self.id);
+                r.wake(self.id);
+            }
+            res
+        }
+
+        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
+            if rt().is_none() {
+                return self.inner.recv_timeout(d);
+            }
+            for _ in 0..64 {
+                match self.try_recv() {
+                    Ok(v) => return Ok(v),
+                    Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
+                    Err(TryRecvError::Empty) => {}
+                }
+            }
+            Err(RecvTimeoutError::Timeout)
+        }
+
+        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
+            ::std::iter::from_fn(move || self.recv().ok())
+        }
+
+        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
+            ::std::iter::from_fn(move || self.try_recv().ok())
+        }
+    }
+}
-- 
2.43.0


From 87e5135176ccdfbb829266105f03843108dc9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/47] sim seam: guarded scratch-buffer hooks in
 sunscreen_tfhe (cfg spf_sim)

---
 sunscreen_tfhe/src/lib.rs     |  6 ++++++
 sunscreen_tfhe/src/scratch.rs |  6 ++++++
 sunscreen_tfhe/src/sim.rs     | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 sunscreen_tfhe/src/sim.rs

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..403e7ba 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -2,6 +2,8 @@
 
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(spf_sim, allow(missing_docs))]
 
 #[macro_use]
 mod dst;
@@ -37,3 +39,7 @@ pub mod high_level;
 /// Container [`Error`] and [`Result`] types for this crate.
 mod error;
 pub use error::*;
+
+#[cfg(spf_sim)]
+#[doc(hidden)]
+pub mod sim;
diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index e280dcf..54a9e15 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -163,6 +163,9 @@ impl Scratch {
             }
         };
 
+        #[cfg(spf_sim)]
+        crate::sim::on_scratch_alloc(unsafe { (*allocation).data.as_mut_slice() });
+
         ScratchBuffer {
             allocation,
             pool: self.stack.clone(),
@@ -213,6 +216,9 @@ impl<T> ScratchBuffer<'_, T> {
 
 impl<T> Drop for ScratchBuffer<'_, T> {
     fn drop(&mut self) {
+        #[cfg(spf_sim)]
+        crate::sim::on_scratch_free(unsafe { (*self.allocation).data.as_ptr() });
+
         self.pool.borrow_mut().push_back(self.allocation);
     }
 }
diff --git a/sunscreen_tfhe/src/sim.rs b/sunscreen_tfhe/src/sim.rs
new file mode 100644
index 0000000..dafcc7b
--- /dev/null
+++ b/sunscreen_tfhe/src/sim.rs
@@ -0,0 +1,34 @@
+//! Deterministic-simulation seam, compiled only with `--cfg spf_sim`.
+#![allow(missing_docs)]
+
+use std::sync::OnceLock;
+
+pub use crate::iteration::*;
+pub use crate::scratch::*;
+
+/// Callbacks into the simulator.
+pub struct Hooks {
+    /// A scratch buffer backed by these bytes is about to be handed out.
+    pub scratch_alloc: fn(&mut [u8]),
+    /// The scratch buffer backed by the allocation at this address was released.
+    pub scratch_free: fn(*const u8),
+}
+
+static HOOKS: OnceLock<Hooks> = OnceLock::new();
+
+/// Install the simulator's callbacks. May only be called once.
+pub fn install(hooks: Hooks) {
+    let _ = HOOKS.set(hooks);
+}
+
+pub(crate) fn on_scratch_alloc(bytes: &mut [u8]) {
+    if let Some(h) = HOOKS.get() {
+        (h.scratch_alloc)(bytes)
+    }
+}
+
+pub(crate) fn on_scratch_free(ptr: *const u8) {
+    if let Some(h) = HOOKS.get() {
+        (h.scratch_free)(ptr)
+    }
+}
-- 
2.43.0


From 59aa545669164afb2f80da4e942aeca395cd7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 03/47] sim seam: guarded simulated std in parasol_runtime and
 parasol_cpu (cfg spf_sim)

---
 mux_circuits/src/lib.rs                                     | 1 +
 mux_circuits/src/mul.rs                                     | 1 +
 parasol_cpu/src/lib.rs                                      | 1 +
 parasol_cpu/src/memory/mod.rs                               | 2 ++
 parasol_cpu/src/proc/fhe_processor.rs                       | 2 ++
 parasol_cpu/src/proc/mod.rs                                 | 2 ++
 parasol_cpu/src/tomasulo/registers.rs                       | 2 ++
 parasol_cpu/src/tomasulo/scoreboard.rs                      | 2 ++
 parasol_cpu/src/tomasulo/tomasulo_processor.rs              | 2 ++
 parasol_runtime/src/circuit_processor/completion_handler.rs | 2 ++
 parasol_runtime/src/circuit_processor/mod.rs                | 2 ++
 parasol_runtime/src/circuit_processor/task.rs               | 2 ++
 parasol_runtime/src/lib.rs                                  | 1 +
 parasol_runtime/src/test_utils.rs                           | 2 ++
 14 files changed, 24 insertions(+)

diff --git a/mux_circuits/src/lib.rs b/mux_circuits/src/lib.rs
index 6ce161b..895531b 100644
--- a/mux_circuits/src/lib.rs
+++ b/mux_circuits/src/lib.rs
@@ -1,5 +1,6 @@
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 //! This crate provides algorithms for building multiplexer circuits as well as a standard library
 //! of common operations.
 
diff --git a/mux_circuits/src/mul.rs b/mux_circuits/src/mul.rs
index f315fa9..cff0f1a 100644
--- a/mux_circuits/src/mul.rs
+++ b/mux_circuits/src/mul.rs
@@ -63,6 +63,7 @@ pub fn unsigned_multiplier(n: usize, m: usize) -> MuxCircuit {
     match (n, m) {
         (8, 8) => bincode::deserialize(include_bytes!("data/multiplier-n8-m8")).unwrap(),
         (16, 16) => bincode::deserialize(include_bytes!("data/multiplier-n16-m16")).unwrap(),
+        #[cfg(not(spf_sim))]
         (32, 32) => bincode::deserialize(include_bytes!("data/multiplier-n32-m32")).unwrap(),
         _ => multiplier_impl(MultiplierParams { n, m }),
     }
diff --git a/parasol_cpu/src/lib.rs b/parasol_cpu/src/lib.rs
index e09114d..88f6dbb 100644
--- a/parasol_cpu/src/lib.rs
+++ b/parasol_cpu/src/lib.rs
@@ -1,5 +1,6 @@
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 //! This crate provides the Parasol processor for running programs over encrypted data. The general
 //! workflow for using it is:
 //! * Compile a program using Parasol-clang
diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..7c3fb65 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -1,6 +1,8 @@
 // TODO: Remove
 #![allow(unused)]
 
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::{
     collections::HashMap,
     sync::{Arc, Mutex},
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..b69d6a5 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -13,6 +13,8 @@ use super::{ops::is_invalid_load_store_alignment, *};
 
 use log::{debug, error, trace};
 
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::sync::{
     Arc,
     atomic::Ordering,
diff --git a/parasol_cpu/src/proc/mod.rs b/parasol_cpu/src/proc/mod.rs
index b8bd9cd..e327c8a 100644
--- a/parasol_cpu/src/proc/mod.rs
+++ b/parasol_cpu/src/proc/mod.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::{
     borrow::BorrowMut,
     collections::HashMap,
diff --git a/parasol_cpu/src/tomasulo/registers.rs b/parasol_cpu/src/tomasulo/registers.rs
index a6c4e7e..75ff620 100644
--- a/parasol_cpu/src/tomasulo/registers.rs
+++ b/parasol_cpu/src/tomasulo/registers.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::{
     cell::RefCell,
     fmt::Debug,
diff --git a/parasol_cpu/src/tomasulo/scoreboard.rs b/parasol_cpu/src/tomasulo/scoreboard.rs
index 58a1f45..00e0b3b 100644
--- a/parasol_cpu/src/tomasulo/scoreboard.rs
+++ b/parasol_cpu/src/tomasulo/scoreboard.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::{
     marker::PhantomData,
     ops::Deref,
diff --git a/parasol_cpu/src/tomasulo/tomasulo_processor.rs b/parasol_cpu/src/tomasulo/tomasulo_processor.rs
index 23d75f7..cd44c6a 100644
--- a/parasol_cpu/src/tomasulo/tomasulo_processor.rs
+++ b/parasol_cpu/src/tomasulo/tomasulo_processor.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::sync::mpsc::Sender;
 
 use super::scoreboard::ScoreboardEntryRef;
diff --git a/parasol_runtime/src/circuit_processor/completion_handler.rs b/parasol_runtime/src/circuit_processor/completion_handler.rs
index 9c4bc5e..5e22369 100644
--- a/parasol_runtime/src/circuit_processor/completion_handler.rs
+++ b/parasol_runtime/src/circuit_processor/completion_handler.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::sync::{
     OnceLock,
     atomic::{AtomicUsize, Ordering},
diff --git a/parasol_runtime/src/circuit_processor/mod.rs b/parasol_runtime/src/circuit_processor/mod.rs
index 3507309..3f3ee5b 100644
--- a/parasol_runtime/src/circuit_processor/mod.rs
+++ b/parasol_runtime/src/circuit_processor/mod.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::{
     collections::HashMap,
     sync::{
diff --git a/parasol_runtime/src/circuit_processor/task.rs b/parasol_runtime/src/circuit_processor/task.rs
index 90314cd..437727e 100644
--- a/parasol_runtime/src/circuit_processor/task.rs
+++ b/parasol_runtime/src/circuit_processor/task.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::sync::{Arc, atomic::AtomicUsize};
 
 use parasol_concurrency::{AtomicRefCell, Spinlock};
diff --git a/parasol_runtime/src/lib.rs b/parasol_runtime/src/lib.rs
index 24ec61f..a16f814 100644
--- a/parasol_runtime/src/lib.rs
+++ b/parasol_runtime/src/lib.rs
@@ -1,5 +1,6 @@
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 //! This crate provides a number of types and methods for interacting with the Parasol processor
 //! and FHE.
 //!
diff --git a/parasol_runtime/src/test_utils.rs b/parasol_runtime/src/test_utils.rs
index aa8c25d..6ecce01 100644
--- a/parasol_runtime/src/test_utils.rs
+++ b/parasol_runtime/src/test_utils.rs
@@ -1,3 +1,5 @@
+#[cfg(spf_sim)]
+use parasol_concurrency::sim::std;
 use std::sync::{Arc, Mutex, OnceLock, mpsc::Receiver};
 
 use crate::{
-- 
2.43.0


From 6c3fe2343d71534416468a137ed6b33322912786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 04/47] fix: refused AtomicRefCell::borrow no longer counts as
 a borrow

A refused shared borrow of a mutably borrowed cell left the state at 1,
so the next borrow_mut succeeded while the first RefMut was still alive.
Count the borrow only once it is known to be allowed.
---
 parasol_concurrency/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index caf5f5b..aea2495 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -80,15 +80,20 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // Only count the borrow once we know it's allowed; a refused attempt must not disturb the
+        // state of an existing borrow.
+        let res = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| {
+                (count != 0 && count < usize::MAX / 2).then_some(count + 1)
+            });
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
-            panic!("AtomicRefCell says I think you have enough references, buddy.");
+        if let Err(count) = res {
+            if count == 0 {
+                panic!("AtomicRefCell already borrowed as mut");
+            } else {
+                panic!("AtomicRefCell says I think you have enough references, buddy.");
+            }
         }
 
         Ref {
-- 
2.43.0


From 23b4ae6a88a51875e7e449b472683da3d41a6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 05/47] sim seam: cover the remaining integer atomics (cfg
 spf_sim)

---
 parasol_concurrency/src/sim.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parasol_concurrency/src/sim.rs b/parasol_concurrency/src/sim.rs
index 135d953..50e9448 100644
--- a/parasol_concurrency/src/sim.rs
+++ b/parasol_concurrency/src/sim.rs
@@ -115,8 +115,8 @@ pub mod std {
             pub use ::std::sync::atomic::*;
 
             pub use super::super::super::atomics::{
-                AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU32, AtomicU64,
-                AtomicUsize, fence,
+                AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicU8,
+                AtomicU16, AtomicU32, AtomicU64, AtomicUsize, fence,
             };
         }
 
@@ -339,7 +339,10 @@ mod atomics {
     sim_int!(AtomicI64, i64);
     sim_int!(AtomicU32, u32);
     sim_int!(AtomicI32, i32);
+    sim_int!(AtomicU16, u16);
+    sim_int!(AtomicI16, i16);
     sim_int!(AtomicU8, u8);
+    sim_int!(AtomicI8, i8);
     sim_atomic!(AtomicBool, bool, |x: bool| x as u64);
     sim_fetch!(
         AtomicBool,
-- 
2.43.0


From e2cf404f93e4dc56e5986030ad1b06077348f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 06/47] fix: storing a pointer register through itself no
 longer panics

---
 parasol_cpu/src/proc/ops/store.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..dac321c 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -20,10 +20,8 @@ impl FheProcessor {
         pc: u32,
     ) {
         let store_impl = || -> Result<()> {
-            let mut dst = dst.entry_force_mut();
-            let dst = &mut **dst;
-
-            unwrap_registers!((src));
+            // `dst` holds the pointer and is only read, and may be the same register as `src`.
+            unwrap_registers!((dst) (src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
-- 
2.43.0


From d62707eb7f104a4e7d3914bd63d4f15a3a2b01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 07/47] fix: wait for late branch conditions and load/store
 pointers before reading them

---
 parasol_cpu/src/proc/fhe_processor.rs | 76 +++++++++++++++++++--------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index b69d6a5..cd2a562 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -219,6 +219,25 @@ impl FheProcessor {
         Ok(())
     }
 
+    /// The front end reads the pointer of a load or store and the condition of a branch while
+    /// dispatching the instruction, so the instruction producing that register must have executed
+    /// by then.
+    fn resolve_front_end_operand(&mut self, inst: &IsaOp, options: &RunProgramOptions) {
+        let operand = match inst {
+            IsaOp::Load(_, ptr, ..) | IsaOp::Store(ptr, ..) => ptr,
+            IsaOp::BranchNonZero(cond, _) | IsaOp::BranchZero(cond, _) => cond,
+            _ => return,
+        };
+
+        if let Some(producer) = self.registers.get_instruction(*operand) {
+            // Executing an instruction takes it out of its scoreboard entry.
+            while producer.instruction.borrow().is_some() {
+                let ready = self.ready_instructions.1.recv().unwrap();
+                self.process_ready_instruction(ready, options);
+            }
+        }
+    }
+
     /// Figures out the gas cost for the given instruction
     fn compute_gas(&self, dispatched_op: &crate::proc::DispatchIsaOp) -> u32 {
         fn is_register_ciphertext(reg: &RobEntryRef<Register>) -> bool {
@@ -318,6 +337,8 @@ impl FheProcessor {
 
         inst.validate(self.current_instruction, pc)?;
 
+        self.resolve_front_end_operand(&inst, options);
+
         let srcs = (&self.registers, ());
 
         if options.log_instruction_execution {
@@ -431,33 +452,42 @@ impl FheProcessor {
                 }
             };
 
-            if options.log_instruction_execution {
-                trace!("Instructions remaining {}", self.instructions_inflight);
-            }
+            self.process_ready_instruction(ready, options);
+        }
+    }
 
-            match ready {
-                InstructionOperation::Retire(Ok(v)) => {
-                    if options.log_instruction_execution {
-                        debug!("retired id={} pc={}", v.id, v.pc);
-                    }
+    /// Retire or execute the given instruction.
+    fn process_ready_instruction(
+        &mut self,
+        ready: InstructionOperation<DispatchIsaOp>,
+        options: &RunProgramOptions,
+    ) {
+        if options.log_instruction_execution {
+            trace!("Instructions remaining {}", self.instructions_inflight);
+        }
 
-                    self.instructions_inflight -= 1;
+        match ready {
+            InstructionOperation::Retire(Ok(v)) => {
+                if options.log_instruction_execution {
+                    debug!("retired id={} pc={}", v.id, v.pc);
                 }
-                InstructionOperation::Retire(Err(e)) => {
-                    error!("retire error e={e}");
 
-                    // This should already be set in `retire`, but let's do this for safety
-                    // just in case we later add another sender codepath to the retirement channel.
-                    let _ = self.aux_data.fault.set(e);
-                    self.instructions_inflight -= 1;
-                }
-                InstructionOperation::Exec(v) => {
-                    self.exec_instruction(
-                        v.clone(),
-                        self.make_retirement_info(&v, &self.aux_data.fault),
-                        options,
-                    );
-                }
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Retire(Err(e)) => {
+                error!("retire error e={e}");
+
+                // This should already be set in `retire`, but let's do this for safety
+                // just in case we later add another sender codepath to the retirement channel.
+                let _ = self.aux_data.fault.set(e);
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Exec(v) => {
+                self.exec_instruction(
+                    v.clone(),
+                    self.make_retirement_info(&v, &self.aux_data.fault),
+                    options,
+                );
             }
         }
     }
-- 
2.43.0


From dc15ce7e4eaa802dc8912dc190c8fa6d762d2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 08/47] fix: compute register width masks without overflowing
 at 128 bits

LoadI range checks, xor masking and add-with-carry were also wrong for wide registers.
---
 mux_circuits/src/util.rs                |  6 +++++-
 parasol_cpu/src/proc/ops/add.rs         | 23 +++++++++++++++--------
 parasol_cpu/src/proc/ops/and.rs         |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs     |  8 ++++----
 parasol_cpu/src/proc/ops/comparisons.rs |  4 ++--
 parasol_cpu/src/proc/ops/loadi.rs       |  8 ++++----
 parasol_cpu/src/proc/ops/mod.rs         | 10 ++++++++++
 parasol_cpu/src/proc/ops/neg.rs         |  4 ++--
 parasol_cpu/src/proc/ops/not.rs         |  8 ++++++--
 parasol_cpu/src/proc/ops/or.rs          |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs         |  8 ++++++--
 parasol_cpu/src/proc/ops/xor.rs         | 10 +++++++---
 12 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..e0555b3 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,11 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = if width >= u128::BITS {
+        u128::MAX
+    } else {
+        (0x1 << width) - 1
+    };
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..c63fdc0 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,11 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +39,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +182,15 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
-
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
-
-    let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
+    let (partial, overflow_ab) = a.overflowing_add(b);
+    let (full_sum, overflow_carry) = partial.overflowing_add(carry_in);
+
+    let sum = full_sum & width_mask(width);
+    let carry = if width >= u128::BITS {
+        (overflow_ab || overflow_carry) as u128
+    } else {
+        (full_sum >> width) & 1
+    };
 
     (sum, carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..d0fa54b 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an and instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..578b946 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/comparisons.rs b/parasol_cpu/src/proc/ops/comparisons.rs
index 4a26566..fc4db6a 100644
--- a/parasol_cpu/src/proc/ops/comparisons.rs
+++ b/parasol_cpu/src/proc/ops/comparisons.rs
@@ -12,14 +12,14 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 fn to_signed(val: u128, width: u32) -> i128 {
     let sign = 1 << (width - 1);
     if sign & val == 0 {
         val as i128
     } else {
-        (!((sign << 1) - 1) | val) as i128
+        (!width_mask(width) | val) as i128
     }
 }
 
diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..612d639 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = width >= u32::BITS || imm < (1 << width);
+            let in_range_signed_neg = width >= u32::BITS || imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index 22ac6ab..667def2 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -132,6 +132,16 @@ pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bo
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
 
+/// A mask selecting the low `width` bits. Registers are up to 128 bits wide, for which
+/// `(1 << width) - 1` overflows.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    if width >= u128::BITS {
+        u128::MAX
+    } else {
+        (0x1 << width) - 1
+    }
+}
+
 #[macro_export]
 #[doc(hidden)]
 macro_rules! unwrap_registers {
diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..38f719a 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,6 @@
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -23,7 +23,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..48bd9b9 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +29,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..d20d0c7 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an or instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..234f367 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,11 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +40,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..6a43258 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,10 +42,10 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
-                    val: val1 ^ val2 & mask,
+                    val: (val1 ^ val2) & mask,
                     width: *width1,
                 };
 
-- 
2.43.0


From 121912e4471b8c45fd91552438e55d1d5a846d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 09/47] fix: shifts and rotations by the register width or more
 no longer panic or give wrong values

Encrypted shift amounts the shift circuits cannot handle are reported as illegal operands.
---
 parasol_cpu/src/proc/fhe_processor.rs |  10 +--
 parasol_cpu/src/proc/ops/bitshift.rs  | 116 ++++++++++++++++++++++----
 2 files changed, 103 insertions(+), 23 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index cd2a562..65eb716 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -831,19 +831,19 @@ impl Tomasulo for FheProcessor {
                 self.xor(retirement_info, dst, a, b, instruction_id, pc);
             }
             Shr(dst, src, shift) => {
-                self.shr(retirement_info, dst, src, shift);
+                self.shr(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Shra(dst, src, shift) => {
-                self.shra(retirement_info, dst, src, shift);
+                self.shra(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Shl(dst, src, shift) => {
-                self.shl(retirement_info, dst, src, shift);
+                self.shl(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Rotr(dst, src, shift) => {
-                self.rotr(retirement_info, dst, src, shift);
+                self.rotr(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Rotl(dst, src, shift) => {
-                self.rotl(retirement_info, dst, src, shift);
+                self.rotl(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Add(dst, a, b) => {
                 self.add(retirement_info, dst, a, b, instruction_id, pc);
diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..b843cfc 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -15,58 +15,94 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    // check if the number if positive
+    let negative = (0x1 << (width - 1)) & val != 0;
+
+    if shift >= width as u128 {
+        return if negative { width_mask(width) } else { 0 };
+    }
+
     let right = val >> shift;
 
-    // check if the number if positive
-    if (0x1 << (width - 1)) & val == 0 {
+    if negative {
+        let signs = width_mask(width) & !width_mask(width - shift as u32);
+        signs | right
+    } else {
         right
+    }
+}
+
+fn logical_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        0
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
-        signs | right
+        val >> shift
+    }
+}
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        0
+    } else {
+        (val << shift) & width_mask(width)
     }
 }
 
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << (width as u128 - shift);
     let right = val >> shift;
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << shift;
     let right = val >> (width as u128 - shift);
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>> {
     let mut result = c.to_owned();
 
+    // Shifting by the whole width or more leaves only the fill bits; rotations wrap around.
+    let shift = match mode {
+        ShiftMode::Rotation => (shift % result.len() as u128) as usize,
+        ShiftMode::Logical | ShiftMode::Arithmetic => shift.min(result.len() as u128) as usize,
+    };
+
     let old_msb = result.last().unwrap().clone();
 
     // The processor is little endian, so a right shift is a left rotation.
     match dir {
-        ShiftDirection::Left => result.rotate_right(shift as usize),
-        ShiftDirection::Right => result.rotate_left(shift as usize),
+        ShiftDirection::Left => result.rotate_right(shift),
+        ShiftDirection::Right => result.rotate_left(shift),
     }
 
     match mode {
         ShiftMode::Logical => {
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = match dir {
                     ShiftDirection::Left => i,
                     ShiftDirection::Right => result.len() - i - 1,
@@ -77,7 +113,7 @@ fn encrypted_value_plain_shift(
         ShiftMode::Rotation => {}
         ShiftMode::Arithmetic => {
             assert_eq!(dir, ShiftDirection::Right);
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = result.len() - i - 1;
                 result[ix] = old_msb.clone();
             }
@@ -86,13 +122,18 @@ fn encrypted_value_plain_shift(
     result
 }
 
+/// The fewest bits an encrypted shift amount may have to shift a `width` bit input.
+fn min_encrypted_shift_width(width: usize) -> usize {
+    (width.next_power_of_two().ilog2() as usize).max(1)
+}
+
 // (val, shift, width) -> u128
 type ShiftOperation = fn(u128, u128, u32) -> u128;
 
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -104,8 +145,11 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
         plain_operation: ShiftOperation,
         plain_shift: ShiftOperationCiphertext,
+        mode: ShiftMode,
         circuit_gen: fn(usize, usize) -> MuxCircuit,
     ) {
         let mut shift_impl = || -> Result<()> {
@@ -133,7 +177,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
@@ -149,6 +193,17 @@ impl FheProcessor {
                     let input_width = c.len();
                     let shift_width = c_shift.len();
 
+                    // The shift circuits need enough shift bits to address the input, and
+                    // only support rotating by an encrypted amount for power of two widths.
+                    if shift_width < min_encrypted_shift_width(input_width)
+                        || (mode == ShiftMode::Rotation && !input_width.is_power_of_two())
+                    {
+                        return Err(Error::IllegalOperands {
+                            inst_id: instruction_id,
+                            pc,
+                        });
+                    }
+
                     let mut graph = FheCircuit::new();
                     let circuit = circuit_gen(input_width, shift_width);
 
@@ -195,13 +250,17 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            instruction_id,
+            pc,
+            logical_shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -211,6 +270,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -228,12 +288,16 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            instruction_id,
+            pc,
             arithmetic_shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -244,6 +308,7 @@ impl FheProcessor {
                     ShiftMode::Arithmetic,
                 )
             },
+            ShiftMode::Arithmetic,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -261,13 +326,17 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            instruction_id,
+            pc,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -277,6 +346,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -294,12 +364,16 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            instruction_id,
+            pc,
             rotate_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -310,6 +384,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -327,12 +402,16 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            instruction_id,
+            pc,
             rotate_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -343,6 +422,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
-- 
2.43.0


From fa31821995440353c5b54a4799980ffb36e46b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 10/47] fix: negate ciphertext registers instead of panicking

---
 parasol_cpu/src/proc/ops/neg.rs | 40 ++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 38f719a..f89537a 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,12 @@
+use parasol_runtime::circuits::sub_circuit;
+
 use crate::{
-    Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
+    Ciphertext, Error, Register, Result,
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, trivially_encrypt_value_l1glwe, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -15,7 +21,7 @@ impl FheProcessor {
         _instruction_id: usize,
         _pc: u32,
     ) {
-        let neg_impl = || -> Result<()> {
+        let mut neg_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src));
 
             match src {
@@ -32,14 +38,32 @@ impl FheProcessor {
 
                     FheProcessor::retire(&retirement_info, Ok(()));
                 }
-                Register::Ciphertext(Ciphertext::L1Glwe { data: _c1 }) => {
-                    todo!()
-                    // let output = add_l1glwe_cipher_cipher(c1, c2);
+                Register::Ciphertext(Ciphertext::L1Glwe { data: c1 }) => {
+                    let width = c1.len();
+
+                    // -x = 0 - x
+                    let zero = trivially_encrypt_value_l1glwe(
+                        0,
+                        width as u32,
+                        &self.aux_data.l1glwe_zero,
+                        &self.aux_data.l1glwe_one,
+                    );
+
+                    let (graph, output) = sub_circuit(width, &zero, c1, None, &self.aux_data.enc);
+
+                    let parent_op = make_parent_op(&retirement_info);
+
+                    self.aux_data
+                        .uop_processor
+                        .spawn_graph(&graph, &self.aux_data.flow, parent_op);
 
-                    // *dst = Register::Ciphertext(Ciphertext::L1GlweCiphertext { data: output });
+                    // There is a borrow out bit that we will ignore
+                    *dst = Register::Ciphertext(Ciphertext::L1Glwe {
+                        data: output[0..width].to_owned(),
+                    });
                 }
                 _ => {
-                    todo!()
+                    return Err(Error::EncryptionMismatch);
                 }
             };
 
-- 
2.43.0


From 5812db7050bbac954354ffd37f44a965fe7aad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 11/47] fix: a load or store rejected at dispatch no longer
 leaves the processor waiting for it

It was counted as in flight but never retires, so run_program hung instead of returning the error.
---
 parasol_cpu/src/proc/fhe_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 65eb716..6035191 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -376,7 +376,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -392,6 +391,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on the instruction is guaranteed to retire.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
-- 
2.43.0


From 8276d104f0c6faa9cf0e106d26e983a8ef886d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 12/47] fix: storing more bytes than a ciphertext register
 holds is an error, not a panic

---
 parasol_cpu/src/proc/ops/store.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index dac321c..208ea63 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -21,7 +21,7 @@ impl FheProcessor {
     ) {
         let store_impl = || -> Result<()> {
             // `dst` holds the pointer and is only read, and may be the same register as `src`.
-            unwrap_registers!((dst) (src));
+            unwrap_registers!((dst)(src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
@@ -35,6 +35,14 @@ impl FheProcessor {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
+                    // Encrypted values can't be implicitly widened.
+                    if src.is_ciphertext() && src.width() < width as usize {
+                        return Err(Error::WidthMismatch {
+                            inst_id: instruction_id,
+                            pc,
+                        });
+                    }
+
                     for i in 0..num_bytes {
                         let byte = match src {
                             Register::Plaintext { val, width: _ } => {
-- 
2.43.0


From c819a0be5eb467af7413d31eab96f8fd20012f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 13/47] fix: an instruction word with stray bits is an illegal
 instruction, not a panic

---
 parasol_cpu/src/proc/assembly.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..1ab10c6 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,10 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    // Bits beyond the instruction's fields must be clear.
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From 1757b469b02666d0e98f5d1c1c6f0ef369e87e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 14/47] fix: charge gas when instructions execute and enforce
 the limit on the total

---
 parasol_cpu/src/proc/fhe_processor.rs | 73 ++++++++++++++++-----------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 6035191..bf8815e 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -131,6 +131,9 @@ where
     ),
 
     pub debug_handlers: Vec<DebugHandler>,
+
+    /// The gas charged so far for the instructions the current program executed.
+    gas_used: u64,
 }
 
 impl FheProcessor {
@@ -145,6 +148,7 @@ impl FheProcessor {
             instructions_inflight: 0,
             ready_instructions: mpsc::channel(),
             debug_handlers: vec![],
+            gas_used: 0,
         }
     }
 
@@ -238,6 +242,28 @@ impl FheProcessor {
         }
     }
 
+    /// Charges the program for an instruction about to execute, failing if that exceeds the gas
+    /// limit. The instruction's operands must be resolved.
+    fn charge_gas(
+        &mut self,
+        instruction: &crate::proc::DispatchIsaOp,
+        options: &RunProgramOptions,
+    ) -> Result<()> {
+        self.gas_used += u64::from(self.compute_gas(instruction));
+
+        match options.gas_limit {
+            Some(gas_limit) if self.gas_used > u64::from(gas_limit) => {
+                Err(Error::OutOfGas(self.gas_used(), gas_limit))
+            }
+            _ => Ok(()),
+        }
+    }
+
+    /// The gas charged so far for the current program.
+    fn gas_used(&self) -> u32 {
+        u32::try_from(self.gas_used).unwrap_or(u32::MAX)
+    }
+
     /// Figures out the gas cost for the given instruction
     fn compute_gas(&self, dispatched_op: &crate::proc::DispatchIsaOp) -> u32 {
         fn is_register_ciphertext(reg: &RobEntryRef<Register>) -> bool {
@@ -332,7 +358,7 @@ impl FheProcessor {
         inst: IsaOp,
         pc: u32,
         options: &RunProgramOptions,
-    ) -> Result<(u32, u32)> {
+    ) -> Result<u32> {
         use crate::tomasulo::{GetDeps, ToDispatchedOp};
 
         inst.validate(self.current_instruction, pc)?;
@@ -365,14 +391,6 @@ impl FheProcessor {
         let disp_inst =
             inst.to_dispatched_op(srcs, scoreboard_entry.clone(), self.current_instruction, pc)?;
 
-        let gas = self.compute_gas(&disp_inst);
-
-        if let Some(gas_limit) = options.gas_limit {
-            if gas > gas_limit {
-                return Err(Error::OutOfGas(gas, gas_limit));
-            }
-        }
-
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
@@ -420,9 +438,7 @@ impl FheProcessor {
         // Execute any ready instructions (possibly including the one we just dispatched)
         self.execute_ready_instructions(false, options);
 
-        let next_pc = self.next_program_counter(disp_inst, pc)?;
-
-        Ok((next_pc, gas))
+        self.next_program_counter(disp_inst, pc)
     }
 
     fn execute_ready_instructions(&mut self, blocking: bool, options: &RunProgramOptions) {
@@ -635,6 +651,7 @@ impl FheProcessor {
         }
 
         self.debug_handlers = vec![];
+        self.gas_used = 0;
 
         // Clear any fault
         self.aux_data.fault = Arc::new(OnceLock::new());
@@ -673,8 +690,6 @@ impl FheProcessor {
         args: &CallData<T>,
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
-        let gas_limit = options.gas_limit();
-
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
@@ -682,7 +697,6 @@ impl FheProcessor {
 
         let mut run_program_impl = || {
             self.pc = initial_pc.0;
-            let mut gas = 0;
 
             loop {
                 // If an async error occurred, stop issuing new instructions.
@@ -696,10 +710,7 @@ impl FheProcessor {
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
                 match pc_result {
-                    Ok((next_pc, used_gas)) => {
-                        gas += used_gas;
-                        self.pc = next_pc;
-                    }
+                    Ok(next_pc) => self.pc = next_pc,
                     Err(e) => match e {
                         // Halt isn't a true error, but rather we ran out of instructions
                         // to execute.
@@ -709,18 +720,14 @@ impl FheProcessor {
                 }
             }
 
-            Ok::<_, Error>(gas)
+            Ok::<_, Error>(())
         };
 
-        let gas = match run_program_impl() {
-            Ok(gas) => gas,
-            Err(e) => {
-                // Attempt to overwrite the current fault. If the frontend returned
-                // an error due to a previous fault, this will fail, but whatever.
-                let _ = self.aux_data.fault.set(e);
-                gas_limit.unwrap_or_default()
-            }
-        };
+        if let Err(e) = run_program_impl() {
+            // Attempt to overwrite the current fault. If the frontend returned
+            // an error due to a previous fault, this will fail, but whatever.
+            let _ = self.aux_data.fault.set(e);
+        }
 
         self.wait(options);
 
@@ -733,7 +740,7 @@ impl FheProcessor {
         }
 
         self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (gas, ret_val))
+            .map(|ret_val| (self.gas_used(), ret_val))
     }
 
     /// Runs the given program using the passed user `data` as arguments.
@@ -789,6 +796,12 @@ impl Tomasulo for FheProcessor {
             return;
         }
 
+        // Whether an operand is a ciphertext is only known once the instruction is about to execute.
+        if let Err(e) = self.charge_gas(&instruction, options) {
+            FheProcessor::retire(&retirement_info, Err(e));
+            return;
+        }
+
         match instruction {
             Load(dst, src, width, offset) => {
                 self.load(
-- 
2.43.0


From 6db2ff0f3ff8c144180426d07203fdbdbdf96672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 15/47] sim seam: leave test_utils out of spf_sim builds
 instead of editing it

---
 parasol_cpu/src/lib.rs            | 1 +
 parasol_runtime/src/lib.rs        | 1 +
 parasol_runtime/src/test_utils.rs | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/lib.rs b/parasol_cpu/src/lib.rs
index 88f6dbb..ffe0eef 100644
--- a/parasol_cpu/src/lib.rs
+++ b/parasol_cpu/src/lib.rs
@@ -72,6 +72,7 @@ pub use proc::FheComputer;
 pub use proc::assembly::register_names;
 
 #[doc(hidden)]
+#[cfg(not(spf_sim))]
 pub mod test_utils;
 
 #[doc(hidden)]
diff --git a/parasol_runtime/src/lib.rs b/parasol_runtime/src/lib.rs
index a16f814..ccc9d19 100644
--- a/parasol_runtime/src/lib.rs
+++ b/parasol_runtime/src/lib.rs
@@ -75,6 +75,7 @@ mod fhe_circuit;
 pub mod fluent;
 mod params;
 #[doc(hidden)]
+#[cfg(not(spf_sim))]
 pub mod test_utils;
 
 pub use circuit_processor::{CircuitProcessor, CompletionHandler, RuntimeError};
diff --git a/parasol_runtime/src/test_utils.rs b/parasol_runtime/src/test_utils.rs
index 6ecce01..aa8c25d 100644
--- a/parasol_runtime/src/test_utils.rs
+++ b/parasol_runtime/src/test_utils.rs
@@ -1,5 +1,3 @@
-#[cfg(spf_sim)]
-use parasol_concurrency::sim::std;
 use std::sync::{Arc, Mutex, OnceLock, mpsc::Receiver};
 
 use crate::{
-- 
2.43.0


From a9a60e29b22208d76107f9d6c1fbde875ab7e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 16/47] sim seam: reads of a write-once cell may miss an
 unordered write (cfg spf_sim)

---
 parasol_concurrency/src/sim.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parasol_concurrency/src/sim.rs b/parasol_concurrency/src/sim.rs
index 50e9448..89cf1d1 100644
--- a/parasol_concurrency/src/sim.rs
+++ b/parasol_concurrency/src/sim.rs
@@ -41,6 +41,9 @@ pub trait Runtime: Sync {
     fn wake(&self, addr: usize);
     /// Should this weak operation fail spuriously?
     fn spurious(&self) -> bool;
+    /// May a read of the write-once object at `addr` miss the write? True only if the write isn't
+    /// ordered before the calling thread.
+    fn stale(&self, addr: usize) -> bool;
     /// The object at `addr` no longer exists.
     fn forget(&self, addr: usize);
 }
@@ -644,6 +647,9 @@ mod locks {
                 r.point("once_get", self.addr());
                 let v = self.inner.get();
                 if v.is_some() {
+                    if r.stale(self.addr()) {
+                        return None;
+                    }
                     r.acquire(self.addr());
                 }
                 return v;
@@ -655,11 +661,14 @@ mod locks {
             self.inner.get_mut()
         }
 
-        pub fn into_inner(self) -> Option<T> {
-            self.inner.into_inner()
+        pub fn into_inner(mut self) -> Option<T> {
+            self.take()
         }
 
         pub fn take(&mut self) -> Option<T> {
+            if let Some(r) = rt() {
+                r.forget(self.addr());
+            }
             self.inner.take()
         }
 
@@ -712,6 +721,14 @@ mod locks {
         }
     }
 
+    impl<T> Drop for OnceLock<T> {
+        fn drop(&mut self) {
+            if let Some(r) = rt() {
+                r.forget(self.addr());
+            }
+        }
+    }
+
     impl<T> Default for OnceLock<T> {
         fn default() -> Self {
             Self::new()
-- 
2.43.0


From eb78d6aa366fe1ba016ff707987ea16245c08143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 17/47] fix: make operations' errors visible to the completion
 callback

The last operation to retire ran the callback after a release-only decrement, so an error another
worker had set wasn't ordered before the callback's read of it and could be missed.
---
 parasol_runtime/src/circuit_processor/completion_handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_runtime/src/circuit_processor/completion_handler.rs b/parasol_runtime/src/circuit_processor/completion_handler.rs
index 5e22369..9bd63bc 100644
--- a/parasol_runtime/src/circuit_processor/completion_handler.rs
+++ b/parasol_runtime/src/circuit_processor/completion_handler.rs
@@ -37,7 +37,9 @@ impl CompletionHandler {
     }
 
     pub(crate) fn retire(&self) {
-        if self.ops_remaining.fetch_sub(1, Ordering::Release) == 1 {
+        // Release publishes this operation's effects (including any error it set) and acquire makes
+        // those of every earlier operation visible to the callback.
+        if self.ops_remaining.fetch_sub(1, Ordering::AcqRel) == 1 {
             (self.callback)(self.error.get().map(|x| x.to_owned()));
         }
     }
-- 
2.43.0


From f46b0c1c877001ffe83638c49c2bd6b9b78223b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 18/47] fix: free a thread's scratch buffers when it ends

Scratch kept raw pointers to its allocations and had no Drop, so every thread that ended leaked all
the scratch memory it had used.
---
 sunscreen_tfhe/src/scratch.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index 54a9e15..f0e17e2 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -175,6 +175,16 @@ impl Scratch {
     }
 }
 
+impl Drop for Scratch {
+    /// Frees the unused allocations when the owning thread ends.
+    fn drop(&mut self) {
+        for allocation in std::mem::take(&mut *self.stack.borrow_mut()) {
+            // The stack only contains allocations no ScratchBuffer refers to.
+            std::mem::drop(unsafe { Box::from_raw(allocation) });
+        }
+    }
+}
+
 struct Allocation {
     data: AVec<u8, RuntimeAlign>,
 }
-- 
2.43.0


From 196a598a311f28d97bbce303801a28e5fd28aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 19/47] fix: check_range_is_mapped judges exactly the pages of
 the range

---
 parasol_cpu/src/memory/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 7c3fb65..f665a5b 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -714,14 +714,21 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
-        let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        if len == 0 {
+            return Ok(());
+        }
+
+        // The range is mapped if the pages of its first through last byte are.
+        let last = ptr.try_offset(len - 1)?;
+
+        let start_page = Page::page_id_from_pointer(ptr);
+        let end_page = Page::page_id_from_pointer(last);
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                return Err(Error::AccessViolation((i << LOG2_PAGE_SIZE).max(ptr.0)));
             }
         }
 
-- 
2.43.0


From ea5574f481b390925c19601bc7da292c2f4930fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 20/47] fix: pushing onto the stack aligns the item and no
 longer overwrites the previous one

---
 parasol_cpu/src/memory/mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index f665a5b..025873b 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -477,21 +477,25 @@ impl Memory {
 
         let alignment = data.alignment as u32;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
+        // Make room for the item, then move further down until it's aligned.
+        let item = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        let item = Ptr32(item.0 - item.0 % alignment);
 
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
-
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        self.check_range_is_mapped(item, stack_ptr.0 - item.0)?;
 
         // Write the bytes in the argument
         for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+            self.try_store(item.try_offset(i as u32)?, b.clone())?;
         }
 
+        // The rest is padding.
+        for i in (item.0 + data.bytes.len() as u32)..stack_ptr.0 {
+            self.try_store(Ptr32(i), Byte::from(0))?;
+        }
+
+        // A push that failed leaves the stack as it was.
+        *stack_ptr = item;
+
         Ok(*stack_ptr)
     }
 
-- 
2.43.0


From 843bce519322893f01b7985af2ce526b1b9562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 21/47] fix: an allocation larger than the address space fails
 instead of wrapping to nothing

---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 025873b..4ba6290 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -607,7 +607,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
-- 
2.43.0


From 482e0f4e78dc1095814919a377ec344216027ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 22/47] fix: Allocation keeps its free offset relative and
 checks for overflow

---
 parasol_cpu/src/memory/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 4ba6290..1b6c220 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -879,16 +879,20 @@ impl Allocation {
             }
         };
 
-        let padded = existing.next_free.next_multiple_of(alignment);
+        let padded = existing
+            .next_free
+            .checked_next_multiple_of(alignment)
+            .ok_or(Error::PointerOverflow)?;
 
         // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
-            return Self::new(memory, len);
-        }
+        let end = match padded.checked_add(len) {
+            Some(end) if end <= existing.size => end,
+            _ => return Self::new(memory, len),
+        };
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = end;
 
         Ok((existing, ptr))
     }
-- 
2.43.0


From de9d89e41646268a592959efe2967d60378c5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 23/47] fix: a program run gives back the stack space its call
 took

---
 parasol_cpu/src/memory/mod.rs         | 13 +++++++++++++
 parasol_cpu/src/proc/fhe_processor.rs | 20 +++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 1b6c220..ef7ca7b 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -504,6 +504,19 @@ impl Memory {
         *self.stack_ptr.lock().unwrap()
     }
 
+    /// Move the stack pointer back to `to`, popping everything above `from`.
+    ///
+    /// # Remarks
+    /// Does nothing unless the stack pointer is at `from`, i.e. nothing was pushed
+    /// since that the caller doesn't know about.
+    pub(crate) fn pop_stack(&self, from: Ptr32, to: Ptr32) {
+        let mut stack_ptr = self.stack_ptr.lock().unwrap();
+
+        if *stack_ptr == from {
+            *stack_ptr = to;
+        }
+    }
+
     /// Allocates `len / PAGE_SIZE` pages starting at `virtual_address`.
     ///
     /// # Remarks
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index bf8815e..5428114 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -691,7 +691,11 @@ impl FheProcessor {
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
         self.reset()?;
+
+        let caller_sp = memory.stack_ptr();
         let return_data = self.set_up_function_call(memory, args)?;
+        let callee_sp = memory.stack_ptr();
+
         self.aux_data.memory = Some(memory.clone());
         self.debug_handlers = options.debug_handlers.clone();
 
@@ -735,12 +739,18 @@ impl FheProcessor {
         self.aux_data.inflight_memory_ops.clear();
         self.aux_data.memory = None;
 
-        if let Some(e) = self.aux_data.fault.get() {
-            return Err(e.clone());
-        }
+        let result = match self.aux_data.fault.get() {
+            Some(e) => Err(e.clone()),
+            None => self
+                .try_capture_return_value(memory, args, return_data)
+                .map(|ret_val| (self.gas_used(), ret_val)),
+        };
+
+        // The function returned, so give back the stack space its call took. Otherwise,
+        // repeatedly running programs in this memory exhausts the stack.
+        memory.pop_stack(callee_sp, caller_sp);
 
-        self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (self.gas_used(), ret_val))
+        result
     }
 
     /// Runs the given program using the passed user `data` as arguments.
-- 
2.43.0


From 3f6602661deb116035134838ebb4dc8290bc5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 24/47] fix: an impossible stack configuration is an error, as
 documented, not a panic

---
 parasol_cpu/src/memory/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index ef7ca7b..563ff61 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -336,7 +336,7 @@ impl Memory {
     /// `elf_data` should contain the contents of an executable ELF file generated by the Parasol
     /// linker.
     pub fn new_from_elf_with_config(elf_data: &[u8], config: &MemoryConfig) -> Result<Self> {
-        let mut memory = Self::new(config.stack_top, config.stack_size);
+        let mut memory = Self::new(config.stack_top, config.stack_size)?;
 
         let elf = ElfBytes::<LittleEndian>::minimal_parse(elf_data)?;
 
@@ -415,25 +415,25 @@ impl Memory {
         Ok(memory)
     }
 
-    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Self {
+    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Result<Self> {
         // Stacks grow downward, so initialize the pointer to the end of the stack rather than
         // the start.
         let memory = Self {
             pages: Mutex::new(vec![None; TOTAL_PAGES as usize]),
-            stack_ptr: Mutex::new(stack_start.try_offset(stack_size).unwrap()),
+            stack_ptr: Mutex::new(stack_start.try_offset(stack_size)?),
             symbols: HashMap::new(),
         };
 
-        memory.try_allocate_at(stack_start, stack_size).unwrap();
+        memory.try_allocate_at(stack_start, stack_size)?;
 
-        memory
+        Ok(memory)
     }
 
     /// Create a new [`Memory`] object with a default stack starting at
     /// 0x8000_0000. This is mostly useful if you are generating your own
     /// program in assembly.
     pub fn new_default_stack() -> Self {
-        Memory::new(Ptr32::from(0x8000_0000), 4096)
+        Memory::new(Ptr32::from(0x8000_0000), 4096).unwrap()
     }
 
     /// Allocate a program in this memory and return the address of the
-- 
2.43.0


From 0c0db43bc64942e9518880929714cb93b7ac36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 25/47] fix: mapped pages take host memory only once written,
 so no image can exhaust it

---
 parasol_cpu/src/memory/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 563ff61..8b3e4da 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -911,23 +911,30 @@ impl Allocation {
     }
 }
 
+/// The contents of every byte of a page that hasn't been written.
+const ZERO_BYTE: &Byte = &Byte::Plaintext(0);
+
 #[derive(Clone)]
 struct Page {
+    /// The page's bytes. Empty until the first store, so that mapping pages that are
+    /// never written (e.g. a large zero-initialized segment) doesn't take host memory.
     data: Vec<Byte>,
 }
 
 impl Page {
     pub fn allocate() -> Self {
-        Self {
-            data: vec![Byte::Plaintext(0); PAGE_SIZE as usize],
-        }
+        Self { data: vec![] }
     }
 
     pub fn load_byte(&self, offset: usize) -> &Byte {
-        &self.data[offset]
+        self.data.get(offset).unwrap_or(ZERO_BYTE)
     }
 
     pub fn store_byte(&mut self, offset: usize, data: Byte) {
+        if self.data.is_empty() {
+            self.data = vec![Byte::Plaintext(0); PAGE_SIZE as usize];
+        }
+
         self.data[offset] = data;
     }
 
-- 
2.43.0


From 614fec1c8e22cbb45145a46145abc1b36515b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 26/47] fix: reject images whose segments overlap or hold more
 in the file than in memory

---
 parasol_cpu/src/error.rs      |  5 +++++
 parasol_cpu/src/memory/mod.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/parasol_cpu/src/error.rs b/parasol_cpu/src/error.rs
index c3f358a..0867ba0 100644
--- a/parasol_cpu/src/error.rs
+++ b/parasol_cpu/src/error.rs
@@ -179,6 +179,11 @@ pub enum Error {
     #[error("Encountered an STT_FUNC symbol out of range.")]
     ElfBadSymbolValue,
 
+    /// A loadable segment overlaps the stack or another segment, or has more bytes in the
+    /// file than in memory.
+    #[error("The ELF segment at address 0x{0:x} overlaps another or doesn't fit its memory")]
+    ElfBadSegment(u32),
+
     /// The specified symbol does not exist the ELF file.
     #[error("The ELF file does not contain the specified symbol: {0}")]
     ElfSymbolNotFound(String),
diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 8b3e4da..ea59917 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -352,6 +352,9 @@ impl Memory {
 
         let segments = elf.segments().ok_or(Error::ElfNoSegmentTable)?;
 
+        // The addresses that are spoken for: the stack and the segments loaded so far.
+        let mut occupied = vec![config.stack_top.0..memory.stack_ptr().0];
+
         // Load all the PT_LOAD segments
         for segment in segments {
             // Skip non-loadable or zero-length segments.
@@ -375,6 +378,19 @@ impl Memory {
             let file_start = Ptr32::from(segment.p_offset as u32);
             let file_end = file_start.try_offset(segment.p_filesz as u32)?;
 
+            if segment.p_filesz > segment.p_memsz {
+                return Err(Error::ElfBadSegment(mem_start.0));
+            }
+
+            if occupied
+                .iter()
+                .any(|o| mem_start.0 < o.end && o.start < mem_end.0)
+            {
+                return Err(Error::ElfBadSegment(mem_start.0));
+            }
+
+            occupied.push(mem_start.0..mem_end.0);
+
             // The ELF specification allows p_memsz > p_filesz, which should be filled with zeros.
             // However, page allocation zeros the full region, so this case is already handled
             // for us.
-- 
2.43.0


From 7f98dd083c290c0a3007cb5059698ab77958fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 27/47] fix: integers read back with the wrong number of bits
 are rejected, not left to panic later

---
 parasol_runtime/src/crypto/recryption.rs         | 2 +-
 parasol_runtime/src/fluent/generic_int.rs        | 8 ++++++++
 parasol_runtime/src/fluent/packed_generic_int.rs | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parasol_runtime/src/crypto/recryption.rs b/parasol_runtime/src/crypto/recryption.rs
index 823258f..b2229af 100644
--- a/parasol_runtime/src/crypto/recryption.rs
+++ b/parasol_runtime/src/crypto/recryption.rs
@@ -109,7 +109,7 @@ pub fn decrypt_one_time_pad(x: &PolynomialRef<u64>, sk: &SecretOneTimePad) -> Po
         .iter_mut()
         .zip(x.coeffs().iter().zip(sk.key.coeffs()))
     {
-        *c = (a + b) % 2;
+        *c = a.wrapping_add(*b) % 2;
     }
 
     result
diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 4951016..5413b91 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -87,6 +87,10 @@ impl<const N: usize, T: CiphertextOps, U: Sign> GetSize for GenericInt<N, T, U>
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.inner.bits.len() != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         for b in &self.inner.bits {
             b.borrow().check_is_valid(params)?;
         }
@@ -205,6 +209,10 @@ impl<T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSize
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.bit_len as usize >= T::poly_degree(params).0 {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         self.ct.borrow().check_is_valid(params)
     }
 }
diff --git a/parasol_runtime/src/fluent/packed_generic_int.rs b/parasol_runtime/src/fluent/packed_generic_int.rs
index 93ac28a..e885530 100644
--- a/parasol_runtime/src/fluent/packed_generic_int.rs
+++ b/parasol_runtime/src/fluent/packed_generic_int.rs
@@ -93,7 +93,11 @@ impl<const N: usize, T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSiz
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
-        self.inner.ct.borrow().check_is_valid(params)
+        if self.inner.bit_len as usize != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
+        self.inner.check_is_valid(params)
     }
 }
 
-- 
2.43.0


From 46348866f4b6772407c3d678191aeb71b909d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 28/47] fix: a secret key read back with coefficients other
 than bits is rejected, not left to panic later

---
 parasol_runtime/src/crypto/keys.rs | 11 +++++++++++
 parasol_runtime/src/error.rs       |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/parasol_runtime/src/crypto/keys.rs b/parasol_runtime/src/crypto/keys.rs
index 1cf44f2..5c35dca 100644
--- a/parasol_runtime/src/crypto/keys.rs
+++ b/parasol_runtime/src/crypto/keys.rs
@@ -117,6 +117,17 @@ impl GetSize for SecretKey {
         self.lwe_0.check_is_valid(params.l0_params.dim)?;
         self.glwe_1.check_is_valid(params.l1_params.dim)?;
 
+        // Keys cannot be generated from anything else.
+        let mut coeffs = self
+            .lwe_0
+            .s()
+            .iter()
+            .chain(self.glwe_1.to_lwe_secret_key().s());
+
+        if coeffs.any(|x| *x > 1) {
+            return Err(crate::Error::NonBinarySecretKey);
+        }
+
         Ok(())
     }
 }
diff --git a/parasol_runtime/src/error.rs b/parasol_runtime/src/error.rs
index 80672bb..2025b27 100644
--- a/parasol_runtime/src/error.rs
+++ b/parasol_runtime/src/error.rs
@@ -5,6 +5,10 @@ pub enum Error {
     #[error("Ciphertext was not of the expected type.")]
     CiphertextMismatch,
 
+    /// A secret key contains coefficients other than zero and one.
+    #[error("The secret key is not binary.")]
+    NonBinarySecretKey,
+
     /// A serialization error.
     #[error("{0}")]
     Bincode(#[from] bincode::Error),
-- 
2.43.0


From 58d0e96e0a24c152ab365db5073d497b5f291e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 29/47] fix: room for Glev constants in a circuit's constant
 cache

---
 parasol_runtime/src/crypto/ciphertext.rs | 5 +++++
 parasol_runtime/src/fluent/mod.rs        | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/crypto/ciphertext.rs b/parasol_runtime/src/crypto/ciphertext.rs
index 25a2df1..7f62c14 100644
--- a/parasol_runtime/src/crypto/ciphertext.rs
+++ b/parasol_runtime/src/crypto/ciphertext.rs
@@ -22,6 +22,11 @@ pub enum CiphertextType {
     L1GlevCiphertext = 4,
 }
 
+impl CiphertextType {
+    /// The number of ciphertext types.
+    pub(crate) const COUNT: usize = Self::L1GlevCiphertext as usize + 1;
+}
+
 #[derive(Clone)]
 pub enum Ciphertext {
     L0Lwe(L0LweCiphertext),
diff --git a/parasol_runtime/src/fluent/mod.rs b/parasol_runtime/src/fluent/mod.rs
index 2eb68b9..0f56083 100644
--- a/parasol_runtime/src/fluent/mod.rs
+++ b/parasol_runtime/src/fluent/mod.rs
@@ -50,8 +50,8 @@ pub use uint::*;
 pub struct FheCircuitCtx {
     /// The underlying [`FheCircuit`].
     pub circuit: AtomicRefCell<FheCircuit>,
-    one_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
-    zero_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
+    one_cache: AtomicRefCell<[Option<NodeIndex>; CiphertextType::COUNT]>,
+    zero_cache: AtomicRefCell<[Option<NodeIndex>; CiphertextType::COUNT]>,
     allocator: Bump,
 }
 
@@ -66,8 +66,8 @@ impl FheCircuitCtx {
     pub fn new() -> Self {
         Self {
             circuit: AtomicRefCell::new(FheCircuit::new()),
-            one_cache: AtomicRefCell::new([None; 4]),
-            zero_cache: AtomicRefCell::new([None; 4]),
+            one_cache: AtomicRefCell::new([None; CiphertextType::COUNT]),
+            zero_cache: AtomicRefCell::new([None; CiphertextType::COUNT]),
             allocator: Bump::new(),
         }
     }
-- 
2.43.0


From aca9728dd4d5f433fb4aee720f07f54ce5fbf6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 30/47] fix: multiply wide integers of different widths, and
 into Glev outputs

---
 parasol_runtime/src/circuits/mul.rs | 30 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..0fde643 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -119,8 +119,8 @@ fn mul_impl<OutCt: Muxable>(
         // a_hi_len being zero. In this case, we compute
         // `b_lo * a_lo + ((b_lo * a_hi) << a_lo_len)`.
 
-        let a_lo_b_lo = mul_impl::<OutCt>(uop_graph, a_lo, b_lo);
-        let a_hi_b_lo = mul_impl::<OutCt>(uop_graph, a_hi, b_lo);
+        let a_lo_b_lo = mul_impl::<L1GlweCiphertext>(uop_graph, a_lo, b_lo);
+        let a_hi_b_lo = mul_impl::<L1GlweCiphertext>(uop_graph, a_hi, b_lo);
 
         // The lower a_lo_len bits of a_lo_b_lo simply pass through to the total.
         // We do need to sum the upper b_lo bits of `a_lo_b_lo`` to `a_hi_b_lo``.
@@ -130,14 +130,14 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter())
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    OutCt::CIPHERTEXT_TYPE,
+                    CiphertextType::L1GlweCiphertext,
                     CiphertextType::L1GgswCiphertext,
                 )
             }) // Convert the ciphertexts back to GGSW
@@ -147,20 +147,30 @@ fn mul_impl<OutCt: Muxable>(
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
-        [lo, &sum_out].concat()
+        lo.iter()
+            .map(|x| {
+                insert_ciphertext_conversion(
+                    uop_graph,
+                    *x,
+                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
+                )
+            })
+            .chain(sum_out)
+            .collect()
     } else {
         // If both operands have high and low pieces, recursively compute the 4
         // partial products and reduce.
-        let a_lo_b_lo = mul_impl::<OutCt>(uop_graph, a_lo, b_lo);
+        let a_lo_b_lo = mul_impl::<L1GlweCiphertext>(uop_graph, a_lo, b_lo);
         assert_eq!(a_lo_b_lo.len(), a_lo_len + b_lo_len);
 
-        let a_lo_b_hi = mul_impl::<OutCt>(uop_graph, a_lo, b_hi);
+        let a_lo_b_hi = mul_impl::<L1GlweCiphertext>(uop_graph, a_lo, b_hi);
         assert_eq!(a_lo_b_hi.len(), a_lo_len + b_hi_len);
 
-        let a_hi_b_lo = mul_impl::<OutCt>(uop_graph, a_hi, b_lo);
+        let a_hi_b_lo = mul_impl::<L1GlweCiphertext>(uop_graph, a_hi, b_lo);
         assert_eq!(a_hi_b_lo.len(), a_hi_len + b_lo_len);
 
-        let a_hi_b_hi = mul_impl::<OutCt>(uop_graph, a_hi, b_hi);
+        let a_hi_b_hi = mul_impl::<L1GlweCiphertext>(uop_graph, a_hi, b_hi);
         assert_eq!(a_hi_b_hi.len(), a_hi_len + b_hi_len);
 
         // Sequence the bits of the partial values as prescribed in `gradeschool_reduce`.
-- 
2.43.0


From ae3f19c00bca1df0a9268974ef3f0542dcbf7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 31/47] fix: compare signed integers of different widths by
 their values

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 65 ++++++++++---------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index f674268..8f3a99c 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -206,6 +206,38 @@ impl<U: Sign> DynamicGenericIntGraphNodes<'_, L1GlweCiphertext, U> {
 }
 
 impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
+    /// Interleave the bits of `self` and `other`, extending the shorter one (by its sign, if it
+    /// has one) to the length of the longer.
+    fn interleave_extended(
+        &self,
+        other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
+        ctx: &FheCircuitCtx,
+    ) -> Vec<NodeIndex> {
+        let max_len = self.bits.len().max(other.bits.len());
+
+        let extended = |bits: &[BitNode<L1GgswCiphertext>]| {
+            let (_, _, use_msb) = V::resize_config(bits.len(), max_len);
+
+            let extend_bit = if use_msb {
+                *bits.last().unwrap()
+            } else {
+                BitNode::zero(ctx)
+            };
+
+            bits.iter()
+                .copied()
+                .chain(std::iter::repeat(extend_bit))
+                .take(max_len)
+                .collect::<Vec<_>>()
+        };
+
+        extended(self.bits)
+            .into_iter()
+            .zip(extended(other.bits))
+            .flat_map(|(a, b)| [a.node, b.node])
+            .collect()
+    }
+
     pub(crate) fn cmp<OutCt: Muxable>(
         &self,
         other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
@@ -219,16 +251,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = V::gen_compare_circuit(max_len, gt, eq);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let cmp_result = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -258,16 +281,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -297,16 +311,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_not_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
-- 
2.43.0


From 795ae61b2786bff96378a9df44cdc37ad0bed03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 32/47] fix: multiplying keeps handles to the circuit's other
 nodes valid

---
 parasol_runtime/src/circuits/mul.rs           |  4 +-
 .../fluent/dynamic_generic_int_graph_nodes.rs | 41 +++++++------------
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 0fde643..0f351ff 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -143,7 +143,9 @@ fn mul_impl<OutCt: Muxable>(
             }) // Convert the ciphertexts back to GGSW
             .collect::<Vec<_>>();
 
-        let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        // The product fits in a.len() + b.len() bits, so the adder never carries out.
+        let mut sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        sum_out.truncate(a_hi_len + b_lo_len);
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 8f3a99c..49949fb 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -6,7 +6,7 @@ use mux_circuits::{
     sub::full_subtractor,
 };
 use petgraph::stable_graph::NodeIndex;
-use std::marker::PhantomData;
+use std::{collections::HashSet, marker::PhantomData};
 
 use crate::{
     Encryption, FheEdge, FheOp, L1GgswCiphertext, L1GlweCiphertext,
@@ -14,7 +14,6 @@ use crate::{
         BitNode, CiphertextOps, DynamicGenericInt, FheCircuitCtx, Muxable,
         PackedDynamicGenericIntGraphNode, Sign,
     },
-    prune,
 };
 
 /// A collection of graph nodes resulting from FHE operations over dynamic generic integers (e.g. the
@@ -490,35 +489,25 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let mut circuit_mut = ctx.circuit.borrow_mut();
 
         // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
-        let existing_outputs = circuit_mut
-            .node_indices()
-            .filter(|x| {
-                let node_type = matches!(
-                    circuit_mut.node_weight(*x).unwrap(),
-                    FheOp::OutputGgsw1(_)
-                        | FheOp::OutputGlev1(_)
-                        | FheOp::OutputGlwe1(_)
-                        | FheOp::OutputLwe0(_)
-                        | FheOp::OutputLwe1(_)
-                );
-
-                node_type
-                    && circuit_mut
-                        .neighbors_directed(*x, petgraph::Direction::Outgoing)
-                        .count()
-                        == 0
-            })
-            .collect::<Vec<_>>();
+        let mut keep = circuit_mut.node_indices().collect::<HashSet<_>>();
 
         let (lo, _hi) = V::append_multiply::<OutCt>(&mut circuit_mut, &a, &b);
 
-        let to_keep = [lo.clone(), existing_outputs].concat();
+        // Remove those nodes we just added that only contribute to the high bits. Nodes that were
+        // in the graph already stay where they are, as others may hold handles to them.
+        let mut to_visit = lo.clone();
 
-        let (pruned, rename) = prune(&circuit_mut, &to_keep);
-        circuit_mut.graph = pruned;
+        while let Some(node) = to_visit.pop() {
+            if keep.insert(node) {
+                to_visit
+                    .extend(circuit_mut.neighbors_directed(node, petgraph::Direction::Incoming));
+            }
+        }
 
-        let lo = lo.into_iter().map(|x| *rename.get(&x).unwrap());
+        circuit_mut
+            .graph
+            .retain_nodes(|_, node| keep.contains(&node));
 
-        DynamicGenericIntGraphNodes::from_nodes(lo, &ctx.allocator)
+        DynamicGenericIntGraphNodes::from_nodes(lo.into_iter(), &ctx.allocator)
     }
 }
-- 
2.43.0


From 070650a5a692f3fadae5a6803fe5a4e1f82786ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 33/47] fix: row iterators report how many rows remain

---
 sunscreen_tfhe/src/dst.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..602ac27 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx - self.front_idx as i64 + self.stride as i64) as usize / self.stride
                 }
             }
 
@@ -203,6 +203,13 @@ macro_rules! dst_iter {
 
                     Some(data)
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::DoubleEndedIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
@@ -361,6 +368,13 @@ macro_rules! dst_iter {
 
                     Some(<$item_ref<T> as crate::dst::FromMutSlice<$wrapper_type<T>>>::from_mut_slice(slice))
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::ExactSizeIterator for $t_mut<'a, T> where T: Clone $(+ $t_bounds)* {
-- 
2.43.0


From bd448b54e4d93384cfe290b94db3e6825beda369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 34/47] fix: mutable row iterators accept empty data

---
 sunscreen_tfhe/src/dst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index 602ac27..5807470 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -339,7 +339,7 @@ macro_rules! dst_iter {
                 pub fn new(data: &'a mut [$wrapper_type<T>], stride: usize) -> Self {
                     assert_eq!(data.len() % stride, 0);
 
-                    let len = (data.len() - stride) as isize;
+                    let len = data.len() as isize - stride as isize;
 
                     Self {
                         start: data.as_mut_ptr(),
-- 
2.43.0


From 39392dfb9f767482ee8a3c360d9abf8ac0c2eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 35/47] fix: scheme switching overwrites its output instead of
 adding to it

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..acf1e99 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,6 +264,10 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
+    // Everything below adds to `y_i_j` or writes a single polynomial of its mask, so
+    // what the caller's buffer held before must not remain.
+    y_i_j.clear();
+
     // Generate encrypted secret key component for this specific GLWE
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
-- 
2.43.0


From faec65549c97511aa261306ecefb751dac1a5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 36/47] fix: scaling a polynomial stays within its buffers

---
 sunscreen_tfhe/src/math/simd/x86_64/avx512.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
index ee80f84..1bb9a28 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
@@ -78,7 +78,13 @@ pub unsafe fn complex_mad_avx_512_unchecked(
     }
 }
 
+/// Compute vector `c += a * s`.
+///
+/// The whole 1024-bit chunks of 512-bit aligned slices are vectorized.
 pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
+    let len = usize::min(c.len(), a.len());
+    let scalar = s;
+
     let mut i = 0;
 
     // Complex<T> is declared as repr(C), so the location of re and im are guaranteed
@@ -94,8 +100,9 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
     let s = AlignedArray([s, s, s, s, s, s, s, s]);
     let s_ptr = s.0.as_ptr();
 
-    // Each complex is 2 f64 values.
-    while i < c.len() {
+    let aligned = a_ptr as usize % 64 == 0 && c_ptr as usize % 64 == 0;
+
+    while aligned && i + 16 <= len {
         unsafe {
             asm!(
                 // TODO: Move loading s outside the loop.
@@ -134,6 +141,11 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
 
         i += 16;
     }
+
+    // The asm above reads and writes 16 elements at a time, so the rest is up to us.
+    for (c, a) in c[i..len].iter_mut().zip(a[i..len].iter()) {
+        *c = c.wrapping_add(a.wrapping_mul(scalar));
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From c0d294d170a76405179eaa07d16d8be716db8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 37/47] fix: subtracting vectors without AVX2 subtracts

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..d40d65c 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -150,7 +150,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From 31a1be94a6fb364e96eda45995ce0a2e102a9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 38/47] fix: private functional keyswitching overwrites its
 output instead of adding to it

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From 7903e2149a1f1e57328dd77ca53b66a779d9e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 39/47] fix: encrypting a GLWE ciphertext overwrites what it
 held before

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..38ec73f 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -42,7 +42,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     }
 
     // b = A * S
-    polynomial_add_assign(b, &tmp);
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From 79774a6ed8a4320a9e701c5941bb839fb807affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 40/47] fix: public functional keyswitching gives the map a
 polynomial of zeros

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From 4cc6b6cf17220c4a9dcc5b25f0fb579ab56b7636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 41/47] fix: public key GLEV encryption does not print the
 message

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From 0a52c41860bb0148b58ad206c559e8bc47a319d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 42/47] sim: the simulator can take vector instructions from
 the machine

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 15 +++++++++++++++
 sunscreen_tfhe/src/sim.rs                  | 11 +++++++++++
 2 files changed, 26 insertions(+)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index d40d65c..ca05e71 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -13,6 +13,11 @@ use crate::{
 
 #[inline(always)]
 fn avx_512_available() -> bool {
+    #[cfg(spf_sim)]
+    if !crate::sim::cpu_has("avx512f") {
+        return false;
+    }
+
     static AVX512_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX512_AVAILABLE.get_or_init(|| {
@@ -26,6 +31,11 @@ fn avx_512_available() -> bool {
 
 #[inline(always)]
 fn avx2_available() -> bool {
+    #[cfg(spf_sim)]
+    if !crate::sim::cpu_has("avx2") {
+        return false;
+    }
+
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX2_AVAILABLE.get_or_init(|| {
@@ -39,6 +49,11 @@ fn avx2_available() -> bool {
 
 #[inline(always)]
 fn fma_available() -> bool {
+    #[cfg(spf_sim)]
+    if !crate::sim::cpu_has("fma") {
+        return false;
+    }
+
     static FMA_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *FMA_AVAILABLE.get_or_init(|| {
diff --git a/sunscreen_tfhe/src/sim.rs b/sunscreen_tfhe/src/sim.rs
index dafcc7b..08bede3 100644
--- a/sunscreen_tfhe/src/sim.rs
+++ b/sunscreen_tfhe/src/sim.rs
@@ -32,3 +32,14 @@ pub(crate) fn on_scratch_free(ptr: *const u8) {
         (h.scratch_free)(ptr)
     }
 }
+
+static CPU: OnceLock<fn(&'static str) -> bool> = OnceLock::new();
+
+/// From now on the machine only has the instructions this function grants. May only be called once.
+pub fn install_cpu(grants: fn(&'static str) -> bool) {
+    let _ = CPU.set(grants);
+}
+
+pub(crate) fn cpu_has(instructions: &'static str) -> bool {
+    CPU.get().is_none_or(|f| f(instructions))
+}
-- 
2.43.0


From d9570b98456b1059fd65f38abf6fe8c40c4a737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:37 +0000
Subject: [PATCH 43/47] fix: vector arithmetic wraps in builds with overflow
 checks

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 12 +++++-------
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs |  4 ++--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..e094f08 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -1,8 +1,8 @@
-use std::ops::{Add, BitAnd, Shl, Shr};
+use std::ops::{BitAnd, Shl, Shr};
 
 use num::{
     Complex, Float,
-    traits::{MulAdd, WrappingAdd, WrappingSub},
+    traits::{WrappingAdd, WrappingMul, WrappingSub},
 };
 use sunscreen_math::One;
 
@@ -119,14 +119,12 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
 }
 
 #[inline(always)]
-pub fn vector_scalar_mad<S, T, U>(c: &mut [S], a: &[T], s: U)
+pub fn vector_scalar_mad<T>(c: &mut [T], a: &[T], s: T)
 where
-    S: Clone + Copy + Add<S, Output = S>,
-    T: Clone + Copy + MulAdd<U, S, Output = S>,
-    U: Clone + Copy,
+    T: WrappingAdd + WrappingMul,
 {
     for (c, a) in c.iter_mut().zip(a.iter()) {
-        *c = a.mul_add(s, *c);
+        *c = c.wrapping_add(&a.wrapping_mul(&s));
     }
 }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..6b9e92f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -40,7 +40,7 @@ pub fn complex_untwist<T: Float>(output: &mut [T], ifft: &[Complex<T>], twist_in
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a + b;
+        *c = a.wrapping_add(b);
     }
 }
 
@@ -48,7 +48,7 @@ pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_sub_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a - b;
+        *c = a.wrapping_sub(b);
     }
 }
 
-- 
2.43.0


From a2c5e8a1a5e47347daa6d2f87990eb4cebdc0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:18 +0000
Subject: [PATCH 44/47] fix: pushing onto a full stack does not overwrite what
 lies below it

---
 parasol_cpu/src/memory/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index ea59917..848ac51 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -233,6 +233,8 @@ impl Ptr32 {
 pub struct Memory {
     pages: Mutex<Vec<Option<Page>>>,
     stack_ptr: Mutex<Ptr32>,
+    /// The lowest address of the stack.
+    stack_start: Ptr32,
     symbols: HashMap<String, Ptr32>,
 }
 
@@ -437,6 +439,7 @@ impl Memory {
         let memory = Self {
             pages: Mutex::new(vec![None; TOTAL_PAGES as usize]),
             stack_ptr: Mutex::new(stack_start.try_offset(stack_size)?),
+            stack_start,
             symbols: HashMap::new(),
         };
 
@@ -477,7 +480,8 @@ impl Memory {
     /// Attempts to push an item on the stack.
     ///
     /// # Remarks
-    /// Will fail if the stack pointer is null or the desired page isn't mapped.
+    /// Will fail if the stack pointer is null, the stack has too little room left or the
+    /// desired page isn't mapped.
     ///
     /// Parasol stacks grow down.
     pub fn try_push_arg_onto_stack(&self, data: &Arg) -> Result<Ptr32> {
@@ -497,6 +501,11 @@ impl Memory {
         let item = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
         let item = Ptr32(item.0 - item.0 % alignment);
 
+        // What lies below the stack may be mapped, but belongs to someone else.
+        if item.0 < self.stack_start.0 {
+            return Err(Error::AccessViolation(item.0));
+        }
+
         self.check_range_is_mapped(item, stack_ptr.0 - item.0)?;
 
         // Write the bytes in the argument
-- 
2.43.0


From 733556934947c2f3d17f4ef1cf0a13ba2a30acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:47 +0000
Subject: [PATCH 45/47] fix: reading back an array strips its elements' padding

Elements whose size isn't a multiple of their alignment got their padding along
with their bytes, though to_bytes adds it and the comment says it is stripped.
---
 parasol_cpu/src/proc/args.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..7d69d05 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -305,16 +305,16 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
             return Ok(as_vec.unwrap_or_else(|_| unreachable!()));
         }
 
+        if data.len() != Self::size() {
+            return Err(Error::TypeSizeMismatch);
+        }
+
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size()].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
-        if as_vec.len() != N {
-            return Err(Error::TypeSizeMismatch);
-        }
-
         Ok(as_vec.try_into().unwrap_or_else(|_| unreachable!()))
     }
 }
-- 
2.43.0


From 34c3e93860da1d3b00ab3f99307a4cd83ee0e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 46/47] fix: align a call's frame to its most aligned member

The frame's size is worked out as if it began at address zero, but it was only
aligned to 16 bytes. With a more aligned argument or return value, e.g. UInt256,
the call data ran past the frame, over what lies above the stack.
---
 parasol_cpu/src/proc/args.rs          | 16 ++++++++++++++++
 parasol_cpu/src/proc/fhe_processor.rs |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 7d69d05..a7576ed 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -533,6 +533,22 @@ impl<T> CallData<T> {
 
         offset
     }
+
+    /// Returns the required alignment for this call data: that of its most aligned member and
+    /// at least the stack pointer's 16 bytes.
+    pub(crate) fn alloc_alignment(&self) -> usize {
+        let mut alignment = 16;
+
+        for arg in self.args.iter() {
+            alignment = alignment.max(arg.alignment);
+        }
+
+        if self.return_value.size > 0 {
+            alignment = alignment.max(self.return_value.alignment);
+        }
+
+        alignment
+    }
 }
 
 #[cfg(test)]
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5428114..d13e580 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -595,7 +595,7 @@ impl FheProcessor {
 
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment: args.alloc_alignment(),
         })?;
 
         let sp = memory.stack_ptr();
-- 
2.43.0


From 487a180d5f94356b20a76f59af924061cf4d37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:15 +0000
Subject: [PATCH 47/47] fix: encrypting and decrypting integers of 128 and more
 bits

Bounds and bits were computed by shifting by the width or beyond: UInt256 and
Int256 refused every value but zero, their upper bits repeated the lower ones,
and checked builds panicked on Int128.
---
 parasol_runtime/src/fluent/int.rs  | 13 +++++++------
 parasol_runtime/src/fluent/uint.rs |  8 +++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/parasol_runtime/src/fluent/int.rs b/parasol_runtime/src/fluent/int.rs
index 57e8372..3dd3e8d 100644
--- a/parasol_runtime/src/fluent/int.rs
+++ b/parasol_runtime/src/fluent/int.rs
@@ -19,17 +19,18 @@ pub struct Signed;
 
 impl PlaintextOps for i128 {
     fn assert_in_bounds(&self, bits: usize) {
-        let max_val = ((0x1u128 << (bits - 1)) - 1).cast_signed();
-        let min_val = -(0x1u128 << (bits - 1)).cast_signed();
+        let min_val = i128::MIN >> (128 - bits.min(128));
+        let max_val = !min_val;
 
-        assert!(bits == 128 || *self <= max_val);
-        assert!(bits == 128 || *self >= min_val);
+        assert!(*self <= max_val);
+        assert!(*self >= min_val);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(bits: I) -> Self {
         let mut num_bits = 0;
 
-        let mut val = bits.enumerate().fold(0i128, |s, (i, x)| {
+        // Wider integers keep what fits.
+        let mut val = bits.take(128).enumerate().fold(0i128, |s, (i, x)| {
             num_bits += 1;
             s | ((x as i128) << i)
         });
@@ -45,7 +46,7 @@ impl PlaintextOps for i128 {
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| ((*self >> i.min(127)) & 0x1) == 0x1)
     }
 }
 
diff --git a/parasol_runtime/src/fluent/uint.rs b/parasol_runtime/src/fluent/uint.rs
index f81e38d..335c2c6 100644
--- a/parasol_runtime/src/fluent/uint.rs
+++ b/parasol_runtime/src/fluent/uint.rs
@@ -19,16 +19,18 @@ pub struct Unsigned;
 
 impl PlaintextOps for u128 {
     fn assert_in_bounds(&self, bits: usize) {
-        assert!(bits == 128 || *self < 0x1 << bits);
+        assert!(bits >= 128 || *self < 0x1 << bits);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(iter: I) -> Self {
-        iter.enumerate()
+        // Wider integers keep what fits.
+        iter.take(128)
+            .enumerate()
             .fold(0u128, |s, (i, x)| s | ((x as u128) << i))
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| i < 128 && ((*self >> i) & 0x1) == 0x1)
     }
 }
 
-- 
2.43.0

