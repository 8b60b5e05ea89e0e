From 8dd0c993776fabc7429d3e42a0c55b311f3d7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 1/8] hooks: deterministic simulation seam behind --cfg
 quick_cache_sim

Routes locks, atomics, thread parking and the clock through crate::sim when the cfg is set.
Off by default: the shipped code is unchanged.
---
 src/lib.rs              |   7 +-
 src/shim.rs             |   9 +-
 src/sim.rs              | 691 ++++++++++++++++++++++++++++++++++++++++
 src/sync_placeholder.rs |   3 +-
 4 files changed, 706 insertions(+), 4 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index ddc0cfe..0b3c942 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,6 +52,8 @@
 //! a crate feature with the same name. If the `parking_lot` feature is disabled the crate defaults to the std lib
 //! implementation instead.
 #![allow(clippy::type_complexity)]
+// quick_cache_sim isn't a declared cfg
+#![allow(unexpected_cfgs)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 
 #[cfg(not(fuzzing))]
@@ -59,10 +61,13 @@ mod linked_slab;
 #[cfg(fuzzing)]
 pub mod linked_slab;
 mod options;
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
 mod rw_lock;
 mod shard;
 mod shim;
+/// Seam for deterministic simulation.
+#[cfg(quick_cache_sim)]
+pub mod sim;
 /// Concurrent cache variants that can be used from multiple threads.
 pub mod sync;
 mod sync_placeholder;
diff --git a/src/shim.rs b/src/shim.rs
index b2ec18d..111d80b 100644
--- a/src/shim.rs
+++ b/src/shim.rs
@@ -1,13 +1,18 @@
 #![allow(dead_code)]
 
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
 pub(crate) use crate::rw_lock;
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
 pub use std::{sync, thread};
 
 #[cfg(feature = "shuttle")]
 pub use shuttle::*;
 
+#[cfg(quick_cache_sim)]
+pub use crate::sim::{rw_lock, sync, thread, time};
+#[cfg(not(quick_cache_sim))]
+pub use std::time;
+
 #[cfg(feature = "shuttle")]
 pub mod rw_lock {
     use std::ops::{Deref, DerefMut};
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..9f12fcf
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,691 @@
+//! Deterministic simulation seam, compiled only with `--cfg quick_cache_sim`.
+//!
+//! Replaces the synchronization primitives, thread parking and the clock reached through
+//! [`crate::shim`] with versions that hand every scheduling decision to a [`Runtime`] installed by
+//! a simulator. The simulator must run all of its tasks on one OS thread, one at a time, switching
+//! between them only inside [`Runtime`] calls.
+#![allow(dead_code)]
+
+use std::{cell::Cell, time::Duration};
+
+/// What the simulator provides.
+pub trait Runtime {
+    /// A scheduling point, other tasks may run before this returns.
+    fn point(&self, what: Point);
+    /// Blocks the calling task until `notify(key)`. Spurious returns are allowed.
+    fn wait(&self, key: usize, timeout: Option<Duration>);
+    /// Wakes all tasks blocked in `wait(key)`.
+    fn notify(&self, key: usize);
+    /// Blocks until there's an unpark token for the calling task, then consumes it.
+    /// Spurious returns are allowed.
+    fn park(&self, timeout: Option<Duration>);
+    /// Leaves an unpark token for `task`.
+    fn unpark(&self, task: u64);
+    /// The calling task.
+    fn current(&self) -> u64;
+    /// Monotonic simulated time.
+    fn now(&self) -> Duration;
+    /// Whether new readers queue behind waiting writers.
+    fn writers_first(&self) -> bool;
+    /// Whether an operation that's allowed to fail spuriously should.
+    fn spurious_failure(&self) -> bool;
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Point {
+    Read,
+    Write,
+    Atomic,
+    Park,
+    Unpark,
+    Yield,
+}
+
+thread_local! {
+    static RUNTIME: Cell<Option<&'static dyn Runtime>> = const { Cell::new(None) };
+}
+
+/// Installs (or uninstalls) the runtime for the calling OS thread, returns the previous one.
+/// Without one, the primitives work but panic rather than block.
+pub fn install(runtime: Option<&'static dyn Runtime>) -> Option<&'static dyn Runtime> {
+    RUNTIME.with(|r| r.replace(runtime))
+}
+
+#[inline]
+fn runtime() -> Option<&'static dyn Runtime> {
+    RUNTIME.with(|r| r.get())
+}
+
+#[inline]
+fn point(what: Point) {
+    if let Some(rt) = runtime() {
+        rt.point(what);
+    }
+}
+
+fn wait(key: usize, timeout: Option<Duration>) {
+    runtime()
+        .expect("blocking outside of the simulation")
+        .wait(key, timeout);
+}
+
+fn notify(key: usize) {
+    if let Some(rt) = runtime() {
+        rt.notify(key);
+    }
+}
+
+/// The state of a reader-writer lock.
+#[derive(Default)]
+struct RawRwLock {
+    /// Number of readers, or -1 if there's a writer.
+    state: Cell<isize>,
+    writers_waiting: Cell<usize>,
+}
+
+impl RawRwLock {
+    const fn new() -> Self {
+        Self {
+            state: Cell::new(0),
+            writers_waiting: Cell::new(0),
+        }
+    }
+
+    fn key(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn try_read(&self) -> bool {
+        let free = self.state.get() >= 0;
+        if free {
+            self.state.set(self.state.get() + 1);
+        }
+        free
+    }
+
+    fn read(&self) {
+        point(Point::Read);
+        loop {
+            let queue =
+                self.writers_waiting.get() != 0 && runtime().is_some_and(|rt| rt.writers_first());
+            if !queue && self.try_read() {
+                return;
+            }
+            wait(self.key(), None);
+        }
+    }
+
+    fn try_write(&self) -> bool {
+        let free = self.state.get() == 0;
+        if free {
+            self.state.set(-1);
+        }
+        free
+    }
+
+    fn write(&self) {
+        point(Point::Write);
+        while !self.try_write() {
+            self.writers_waiting.set(self.writers_waiting.get() + 1);
+            wait(self.key(), None);
+            self.writers_waiting.set(self.writers_waiting.get() - 1);
+        }
+    }
+
+    fn unlock_read(&self) {
+        self.state.set(self.state.get() - 1);
+        notify(self.key());
+    }
+
+    fn unlock_write(&self) {
+        self.state.set(0);
+        notify(self.key());
+    }
+}
+
+/// Same interface as `crate::rw_lock`, doesn't poison.
+pub mod rw_lock {
+    use super::{point, Point, RawRwLock};
+    use std::{
+        cell::UnsafeCell,
+        fmt,
+        ops::{Deref, DerefMut},
+    };
+
+    #[derive(Default)]
+    pub struct RwLock<T: ?Sized> {
+        raw: RawRwLock,
+        data: UnsafeCell<T>,
+    }
+
+    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
+    // Safety: tasks run one at a time and in the same OS thread.
+    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
+
+    #[must_use = "if unused the RwLock will immediately unlock"]
+    pub struct RwLockReadGuard<'rwlock, T: ?Sized>(&'rwlock RwLock<T>);
+
+    #[must_use = "if unused the RwLock will immediately unlock"]
+    pub struct RwLockWriteGuard<'rwlock, T: ?Sized>(&'rwlock RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(t: T) -> Self {
+            Self {
+                raw: RawRwLock::new(),
+                data: UnsafeCell::new(t),
+            }
+        }
+
+        pub fn into_inner(self) -> T {
+            self.data.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        pub fn read(&self) -> RwLockReadGuard<'_, T> {
+            self.raw.read();
+            RwLockReadGuard(self)
+        }
+
+        pub fn write(&self) -> RwLockWriteGuard<'_, T> {
+            self.raw.write();
+            RwLockWriteGuard(self)
+        }
+
+        pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
+            point(Point::Read);
+            self.raw.try_read().then(|| RwLockReadGuard(self))
+        }
+
+        pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
+            point(Point::Write);
+            self.raw.try_write().then(|| RwLockWriteGuard(self))
+        }
+
+        pub fn get_mut(&mut self) -> &mut T {
+            self.data.get_mut()
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
+        fn drop(&mut self) {
+            self.0.raw.unlock_read();
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
+        fn drop(&mut self) {
+            self.0.raw.unlock_write();
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            // Safety: the lock is held
+            unsafe { &*self.0.data.get() }
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            // Safety: the lock is held
+            unsafe { &*self.0.data.get() }
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            // Safety: the lock is held exclusively
+            unsafe { &mut *self.0.data.get() }
+        }
+    }
+
+    impl<T: ?Sized> fmt::Debug for RwLock<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.debug_struct("RwLock").finish_non_exhaustive()
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+}
+
+/// `std::sync` with the blocking primitives and the atomics replaced. Locks don't poison.
+pub mod sync {
+    pub use std::sync::*;
+
+    use super::{notify, runtime, rw_lock, wait};
+    use std::{
+        ops::{Deref, DerefMut},
+        time::Duration,
+    };
+
+    pub type RwLockReadGuard<'a, T> = rw_lock::RwLockReadGuard<'a, T>;
+    pub type RwLockWriteGuard<'a, T> = rw_lock::RwLockWriteGuard<'a, T>;
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T: ?Sized>(rw_lock::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(t: T) -> Self {
+            Self(rw_lock::RwLock::new(t))
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            Ok(self.0.into_inner())
+        }
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            Ok(self.0.read())
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            Ok(self.0.write())
+        }
+
+        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+            self.0.try_read().ok_or(TryLockError::WouldBlock)
+        }
+
+        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+            self.0.try_write().ok_or(TryLockError::WouldBlock)
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            Ok(self.0.get_mut())
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T: ?Sized>(rw_lock::RwLock<T>);
+
+    #[derive(Debug)]
+    #[must_use = "if unused the Mutex will immediately unlock"]
+    pub struct MutexGuard<'a, T: ?Sized> {
+        lock: &'a Mutex<T>,
+        guard: rw_lock::RwLockWriteGuard<'a, T>,
+    }
+
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Self {
+            Self(rw_lock::RwLock::new(t))
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            Ok(self.0.into_inner())
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            Ok(MutexGuard {
+                lock: self,
+                guard: self.0.write(),
+            })
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            match self.0.try_write() {
+                Some(guard) => Ok(MutexGuard { lock: self, guard }),
+                None => Err(TryLockError::WouldBlock),
+            }
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            Ok(self.0.get_mut())
+        }
+    }
+
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            &self.guard
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.guard
+        }
+    }
+
+    /// Wakes spuriously, `notify_one` wakes everyone.
+    #[derive(Debug, Default)]
+    pub struct Condvar(u8);
+
+    impl Condvar {
+        pub const fn new() -> Self {
+            Self(0)
+        }
+
+        fn key(&self) -> usize {
+            self as *const Self as usize
+        }
+
+        pub fn wait<'a, T: ?Sized>(
+            &self,
+            guard: MutexGuard<'a, T>,
+        ) -> LockResult<MutexGuard<'a, T>> {
+            let lock = guard.lock;
+            drop(guard);
+            wait(self.key(), None);
+            lock.lock()
+        }
+
+        pub fn wait_while<'a, T: ?Sized>(
+            &self,
+            mut guard: MutexGuard<'a, T>,
+            mut condition: impl FnMut(&mut T) -> bool,
+        ) -> LockResult<MutexGuard<'a, T>> {
+            while condition(&mut *guard) {
+                guard = self.wait(guard)?;
+            }
+            Ok(guard)
+        }
+
+        /// The boolean is whether the wait timed out.
+        pub fn wait_timeout<'a, T: ?Sized>(
+            &self,
+            guard: MutexGuard<'a, T>,
+            timeout: Duration,
+        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
+            let lock = guard.lock;
+            let now = || runtime().map_or(Duration::ZERO, |rt| rt.now());
+            let start = now();
+            drop(guard);
+            wait(self.key(), Some(timeout));
+            let timed_out = now() - start >= timeout;
+            let guard = lock.lock().unwrap_or_else(|e| e.into_inner());
+            Ok((guard, WaitTimeoutResult(timed_out)))
+        }
+
+        pub fn notify_one(&self) {
+            notify(self.key());
+        }
+
+        pub fn notify_all(&self) {
+            notify(self.key());
+        }
+    }
+
+    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
+    pub struct WaitTimeoutResult(bool);
+
+    impl WaitTimeoutResult {
+        pub fn timed_out(&self) -> bool {
+            self.0
+        }
+    }
+
+    pub mod atomic {
+        pub use std::sync::atomic::*;
+
+        use super::super::{point, runtime, Point};
+        use std::sync::atomic as std_atomic;
+
+        macro_rules! common {
+            ($name: ident, $ty: ty) => {
+                #[derive(Debug, Default)]
+                #[repr(transparent)]
+                pub struct $name(std_atomic::$name);
+
+                impl From<$ty> for $name {
+                    fn from(v: $ty) -> Self {
+                        Self::new(v)
+                    }
+                }
+
+                impl $name {
+                    pub const fn new(v: $ty) -> Self {
+                        Self(std_atomic::$name::new(v))
+                    }
+
+                    pub fn into_inner(self) -> $ty {
+                        self.0.into_inner()
+                    }
+
+                    pub fn get_mut(&mut self) -> &mut $ty {
+                        self.0.get_mut()
+                    }
+
+                    pub fn load(&self, order: Ordering) -> $ty {
+                        point(Point::Atomic);
+                        self.0.load(order)
+                    }
+
+                    pub fn store(&self, v: $ty, order: Ordering) {
+                        point(Point::Atomic);
+                        self.0.store(v, order)
+                    }
+
+                    pub fn swap(&self, v: $ty, order: Ordering) -> $ty {
+                        point(Point::Atomic);
+                        self.0.swap(v, order)
+                    }
+
+                    pub fn compare_exchange(
+                        &self,
+                        current: $ty,
+                        new: $ty,
+                        success: Ordering,
+                        failure: Ordering,
+                    ) -> Result<$ty, $ty> {
+                        point(Point::Atomic);
+                        self.0.compare_exchange(current, new, success, failure)
+                    }
+
+                    pub fn compare_exchange_weak(
+                        &self,
+                        current: $ty,
+                        new: $ty,
+                        success: Ordering,
+                        failure: Ordering,
+                    ) -> Result<$ty, $ty> {
+                        point(Point::Atomic);
+                        if runtime().is_some_and(|rt| rt.spurious_failure()) {
+                            return Err(self.0.load(failure));
+                        }
+                        self.0.compare_exchange(current, new, success, failure)
+                    }
+
+                    pub fn fetch_update(
+                        &self,
+                        set_order: Ordering,
+                        fetch_order: Ordering,
+                        mut f: impl FnMut($ty) -> Option<$ty>,
+                    ) -> Result<$ty, $ty> {
+                        let mut prev = self.load(fetch_order);
+                        while let Some(next) = f(prev) {
+                            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                                Ok(v) => return Ok(v),
+                                Err(v) => prev = v,
+                            }
+                        }
+                        Err(prev)
+                    }
+                }
+            };
+            ($name: ident, $ty: ty, $($op: ident),*) => {
+                common!($name, $ty);
+
+                impl $name {
+                    $(
+                        pub fn $op(&self, v: $ty, order: Ordering) -> $ty {
+                            point(Point::Atomic);
+                            self.0.$op(v, order)
+                        }
+                    )*
+                }
+            };
+        }
+
+        common!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
+
+        macro_rules! integer {
+            ($($name: ident $ty: ty,)*) => {
+                $(
+                    common!(
+                        $name, $ty, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or,
+                        fetch_xor, fetch_max, fetch_min
+                    );
+                )*
+            };
+        }
+
+        integer!(
+            AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
+            AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,
+        );
+    }
+}
+
+/// `std::thread` with the calling task in place of the calling OS thread.
+pub mod thread {
+    pub use std::thread::*;
+
+    use super::{point, runtime, wait, Point};
+    use std::time::Duration;
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+    pub struct ThreadId(u64);
+
+    #[derive(Debug, Clone)]
+    pub struct Thread(ThreadId);
+
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            self.0
+        }
+
+        pub fn unpark(&self) {
+            point(Point::Unpark);
+            if let Some(rt) = runtime() {
+                rt.unpark(self.0 .0);
+            }
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(ThreadId(runtime().map_or(0, |rt| rt.current())))
+    }
+
+    pub fn park() {
+        point(Point::Park);
+        runtime()
+            .expect("parking outside of the simulation")
+            .park(None);
+    }
+
+    pub fn park_timeout(dur: Duration) {
+        point(Point::Park);
+        if let Some(rt) = runtime() {
+            rt.park(Some(dur));
+        }
+    }
+
+    pub fn sleep(dur: Duration) {
+        let Some(rt) = runtime() else { return };
+        let until = rt.now().saturating_add(dur);
+        let key = 0u8;
+        while rt.now() < until {
+            wait(&key as *const u8 as usize, Some(until - rt.now()));
+        }
+    }
+
+    pub fn yield_now() {
+        point(Point::Yield);
+    }
+}
+
+/// `std::time` with a simulated monotonic clock.
+pub mod time {
+    pub use std::time::*;
+
+    use super::runtime;
+    use std::ops::{Add, AddAssign, Sub, SubAssign};
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(runtime().map_or(Duration::ZERO, |rt| rt.now()))
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_add(duration).map(Self)
+        }
+
+        pub fn checked_sub(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_sub(duration).map(Self)
+        }
+    }
+
+    impl Add<Duration> for Instant {
+        type Output = Self;
+
+        fn add(self, rhs: Duration) -> Self {
+            Self(self.0 + rhs)
+        }
+    }
+
+    impl AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, rhs: Duration) {
+            self.0 += rhs;
+        }
+    }
+
+    impl Sub<Duration> for Instant {
+        type Output = Self;
+
+        fn sub(self, rhs: Duration) -> Self {
+            Self(self.0 - rhs)
+        }
+    }
+
+    impl SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, rhs: Duration) {
+            self.0 -= rhs;
+        }
+    }
+
+    impl Sub<Instant> for Instant {
+        type Output = Duration;
+
+        fn sub(self, rhs: Instant) -> Duration {
+            self.duration_since(rhs)
+        }
+    }
+}
diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..e1184c6 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -2,7 +2,7 @@ use std::{
     future::Future,
     hash::{BuildHasher, Hash},
     task::Poll,
-    time::{Duration, Instant},
+    time::Duration,
 };
 
 use crate::{
@@ -15,6 +15,7 @@ use crate::{
             Arc,
         },
         thread,
+        time::Instant,
     },
     Equivalent, Lifecycle, Weighter,
 };
-- 
2.43.0


From c3f3c6891c465c0b95c82ecfaf844cff81b82fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:30 +0000
Subject: [PATCH 2/8] fix: wait only for what is left of the timeout when
 joining a load

The thread was parked for as long as it had been waiting instead of for the
remaining time: it spun at first and could return Timeout after up to twice
the requested duration.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index e1184c6..b3cbd50 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -239,7 +239,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From af1fe75d06ab45ce96473d56f485e39cfd50b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:30 +0000
Subject: [PATCH 3/8] fix: free the slab entry of an abandoned placeholder

Only the map entry was removed, so every load that ended without a value left
its key in the slab for as long as the cache lived.
---
 src/shard.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..bbae92d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,7 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From 650700c682722fd56f0c6dbbc7909e2ba142f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:01 +0000
Subject: [PATCH 4/8] fix: drop the placeholder of a failed load in the unsync
 cache

get_or_insert_with and get_mut_or_insert_with left the placeholder (and a copy
of the key) behind when the closure returned an error or panicked.
---
 src/unsync.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..102087f 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -251,13 +251,17 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
+            Err((placeholder, _)) => {
+                // the guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
                 let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+                let idx = guard.placeholder.idx;
+                guard.insert(v);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -277,13 +281,17 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
+            Err((placeholder, _)) => {
+                // the guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
                 let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+                let idx = guard.placeholder.idx;
+                guard.insert(v);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From 0a0fb814b1a5ee7f1155d9aba3c6983601d9c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:01 +0000
Subject: [PATCH 5/8] fix: an insert that is too heavy to be admitted
 supersedes a load in flight

The placeholder was left in place, so the load could later store a value older
than the insert.
---
 src/shard.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index bbae92d..1ae2db0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1006,6 +1006,12 @@ impl<
         if matches!(strategy, InsertStrategy::Replace { .. }) {
             return Err((key, value));
         }
+        // An insert supersedes a load in flight, same as if the value had been admitted
+        if let Some(idx) = self.search(hash, &key) {
+            if matches!(self.entries.get(idx), Some((Entry::Placeholder(_), _))) {
+                self.remove_internal(hash, idx);
+            }
+        }
         self.lifecycle.on_evict(lcs, key, value);
         Ok(())
     }
-- 
2.43.0


From ffbf179c283e41eff47a66e4fa829ac8919aba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:25 +0000
Subject: [PATCH 6/8] fix: give up on evicting hot items that get pinned during
 the scan

An item counted as unpinned stayed counted for the whole scan. If everything
was pinned by the time the scan came around again, it never ended and the shard
lock was held forever.
---
 src/shard.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 1ae2db0..fc56700 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -691,8 +691,12 @@ impl<
                 *resident.referenced.get_mut() = (*resident.referenced.get_mut())
                     .min(MAX_F)
                     .saturating_sub(1);
-                if unpinned == 0 && Some(next) == self.hot_head {
-                    return false;
+                if Some(next) == self.hot_head {
+                    if unpinned == 0 {
+                        return false;
+                    }
+                    // items may get pinned while scanning, only count those of the last lap
+                    unpinned = 0;
                 }
                 idx = next;
                 continue;
-- 
2.43.0


From a379f424111273f4d9704b7e70c43915b1244d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 7/8] hook: simulate the lock below the RwLock wrapper

---
 src/lib.rs     | 2 +-
 src/rw_lock.rs | 9 ++++++---
 src/shim.rs    | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b3c942..5f0fddf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,7 +61,7 @@ mod linked_slab;
 #[cfg(fuzzing)]
 pub mod linked_slab;
 mod options;
-#[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
+#[cfg(not(feature = "shuttle"))]
 mod rw_lock;
 mod shard;
 mod shim;
diff --git a/src/rw_lock.rs b/src/rw_lock.rs
index ba4db95..b1c4b94 100644
--- a/src/rw_lock.rs
+++ b/src/rw_lock.rs
@@ -1,19 +1,22 @@
 use std::ops::{Deref, DerefMut};
 
+#[cfg(not(feature = "parking_lot"))]
+use crate::shim::sync;
+
 #[cfg(feature = "parking_lot")]
 type InnerRwLock<T> = parking_lot::RwLock<T>;
 #[cfg(not(feature = "parking_lot"))]
-type InnerRwLock<T> = std::sync::RwLock<T>;
+type InnerRwLock<T> = sync::RwLock<T>;
 
 #[cfg(feature = "parking_lot")]
 type InnerRwLockReadGuard<'rwlock, T> = parking_lot::RwLockReadGuard<'rwlock, T>;
 #[cfg(not(feature = "parking_lot"))]
-type InnerRwLockReadGuard<'rwlock, T> = std::sync::RwLockReadGuard<'rwlock, T>;
+type InnerRwLockReadGuard<'rwlock, T> = sync::RwLockReadGuard<'rwlock, T>;
 
 #[cfg(feature = "parking_lot")]
 type InnerRwLockWriteGuard<'rwlock, T> = parking_lot::RwLockWriteGuard<'rwlock, T>;
 #[cfg(not(feature = "parking_lot"))]
-type InnerRwLockWriteGuard<'rwlock, T> = std::sync::RwLockWriteGuard<'rwlock, T>;
+type InnerRwLockWriteGuard<'rwlock, T> = sync::RwLockWriteGuard<'rwlock, T>;
 
 /// A reader-writer lock.
 ///
diff --git a/src/shim.rs b/src/shim.rs
index 111d80b..f20d929 100644
--- a/src/shim.rs
+++ b/src/shim.rs
@@ -1,6 +1,6 @@
 #![allow(dead_code)]
 
-#[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
+#[cfg(not(feature = "shuttle"))]
 pub(crate) use crate::rw_lock;
 #[cfg(not(any(feature = "shuttle", quick_cache_sim)))]
 pub use std::{sync, thread};
@@ -9,7 +9,7 @@ pub use std::{sync, thread};
 pub use shuttle::*;
 
 #[cfg(quick_cache_sim)]
-pub use crate::sim::{rw_lock, sync, thread, time};
+pub use crate::sim::{sync, thread, time};
 #[cfg(not(quick_cache_sim))]
 pub use std::time;
 
-- 
2.43.0


From 43d914587b8078cbfe21329d3217ed423113582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 8/8] fix: don't look for a notified waiter in the list when
 cloning its value panicked

A pending JoinFuture that was notified is no longer in the waiters list. If cloning the loaded
value panicked in its poll, dropping the future while unwinding still tried to remove it from that
list and panicked again, aborting the process.
---
 src/sync_placeholder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index b3cbd50..e8f615a 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -501,7 +501,8 @@ impl<
             unreachable!()
         };
         // If we reach here and waiter is some, it means we got a notification.
-        let notified = waiter.is_some();
+        // It's no longer in the waiters list then, so take it in case cloning the value panics.
+        let notified = waiter.take().is_some();
         let waiter_fn = || {
             let task_waiter = waiter
                 .get_or_insert_with(|| {
-- 
2.43.0

