From 3033b08e149c0d05506d8aaa637541d4c75eae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 01/12] Add verification hooks behind cfg(papaya_verif)

---
 src/lib.rs               |   7 +
 src/raw/alloc.rs         |   2 +-
 src/raw/mod.rs           |  21 +-
 src/raw/utils/counter.rs |   2 +-
 src/raw/utils/mod.rs     |   4 +
 src/raw/utils/parker.rs  |   7 +-
 src/raw/utils/stack.rs   |   3 +-
 src/raw/utils/tagged.rs  |   4 +-
 src/sync.rs              | 580 +++++++++++++++++++++++++++++++++++++++
 9 files changed, 619 insertions(+), 11 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index 51998bd..805620c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,10 +226,13 @@
 #![allow(clippy::multiple_bound_locations, clippy::single_match)]
 // Clippy trips up with pollyfills.
 #![allow(clippy::incompatible_msrv)]
+// The verification hooks are enabled with a custom `cfg`.
+#![allow(unexpected_cfgs)]
 
 mod map;
 mod raw;
 mod set;
+mod sync;
 
 #[cfg(feature = "serde")]
 mod serde_impls;
@@ -241,3 +244,7 @@ pub use map::{
 };
 pub use seize::{Guard, LocalGuard, OwnedGuard};
 pub use set::{HashSet, HashSetBuilder, HashSetRef};
+
+#[cfg(papaya_verif)]
+#[doc(hidden)]
+pub use sync::verif;
diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..48b690e 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -1,9 +1,9 @@
 use std::alloc::Layout;
 use std::marker::PhantomData;
-use std::sync::atomic::{AtomicPtr, AtomicU8, Ordering};
 use std::{alloc, mem, ptr};
 
 use super::{probe, State};
+use crate::sync::atomic::{AtomicPtr, AtomicU8, Ordering};
 
 // A hash-table laid out in a single allocation.
 //
diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..ab5ac90 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -5,14 +5,14 @@ pub(crate) mod utils;
 
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
-use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
-use std::{hint, panic, ptr};
+use std::{panic, ptr};
 
 use self::alloc::{RawTable, Table};
 use self::probe::Probe;
 use self::utils::{untagged, AtomicPtrFetchOps, Counter, Parker, StrictProvenance, Tagged};
 use crate::map::{Compute, Operation, ResizeMode};
+use crate::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
+use crate::sync::{hint, Mutex};
 use crate::Equivalent;
 
 use seize::{Collector, LocalGuard, OwnedGuard};
@@ -1973,6 +1973,9 @@ where
             "`HashMap` exceeded maximum capacity"
         );
 
+        #[cfg(papaya_verif)]
+        crate::sync::event(crate::sync::verif::Event::NextTable);
+
         // Allocate the new table while holding the lock.
         let next = Table::alloc(next_capacity);
         state.next.store(next.raw, Ordering::Release);
@@ -2055,6 +2058,9 @@ where
                     //
                     // Safety: We verified that `i` is in-bounds above.
                     if unsafe { !self.copy_at_blocking(i, table, &next, guard) } {
+                        #[cfg(papaya_verif)]
+                        crate::sync::event(crate::sync::verif::Event::Aborted);
+
                         // This table doesn't have space for the next entry.
                         //
                         // Abort the current resize.
@@ -2474,6 +2480,9 @@ where
                     .compare_exchange(table.raw, next.raw, Ordering::Release, Ordering::Acquire)
                     .is_ok()
                 {
+                    #[cfg(papaya_verif)]
+                    crate::sync::event(crate::sync::verif::Event::Promoted);
+
                     // Successfully promoted the table.
                     //
                     // Note that the `SeqCst` is necessary to make the store visible to threads
@@ -2552,6 +2561,9 @@ where
             }
         }
 
+        #[cfg(papaya_verif)]
+        crate::sync::event(crate::sync::verif::Event::WaitCopied);
+
         // Park until the copy completes.
         let parker = &table.state().parker;
         parker.park(entry, |entry| entry.addr() & Entry::COPIED == 0);
@@ -2611,6 +2623,9 @@ where
 
                     // Defer the entry to be retired by the table we are copying from.
                     if next.raw == table.raw {
+                        #[cfg(papaya_verif)]
+                        crate::sync::event(crate::sync::verif::Event::Deferred);
+
                         prev.state().deferred.push(entry.ptr);
                         return;
                     }
diff --git a/src/raw/utils/counter.rs b/src/raw/utils/counter.rs
index eb5688f..e959fad 100644
--- a/src/raw/utils/counter.rs
+++ b/src/raw/utils/counter.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{AtomicIsize, Ordering};
+use crate::sync::atomic::{AtomicIsize, Ordering};
 
 use super::CachePadded;
 
diff --git a/src/raw/utils/mod.rs b/src/raw/utils/mod.rs
index ce36dc8..ef54572 100644
--- a/src/raw/utils/mod.rs
+++ b/src/raw/utils/mod.rs
@@ -61,10 +61,14 @@ where
         self.0.thread_id()
     }
 
+    #[cfg(not(papaya_verif))]
     #[inline]
     unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &seize::Collector)) {
         unsafe { self.0.defer_retire(ptr, reclaim) };
     }
+
+    #[cfg(papaya_verif)]
+    crate::sync::map_guard_hooks!();
 }
 
 /// Pads and aligns a value to the length of a cache line.
diff --git a/src/raw/utils/parker.rs b/src/raw/utils/parker.rs
index 1ae7e3d..6c0266d 100644
--- a/src/raw/utils/parker.rs
+++ b/src/raw/utils/parker.rs
@@ -1,7 +1,8 @@
 use std::collections::HashMap;
-use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicU8, Ordering};
-use std::sync::Mutex;
-use std::thread::{self, Thread};
+
+use crate::sync::atomic::{AtomicPtr, AtomicU64, AtomicU8, Ordering};
+use crate::sync::thread::{self, Thread};
+use crate::sync::Mutex;
 
 // A simple thread parker.
 //
diff --git a/src/raw/utils/stack.rs b/src/raw/utils/stack.rs
index 84a419e..4eb2a0c 100644
--- a/src/raw/utils/stack.rs
+++ b/src/raw/utils/stack.rs
@@ -1,5 +1,6 @@
 use std::ptr;
-use std::sync::atomic::{AtomicPtr, Ordering};
+
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 /// A simple lock-free, append-only, stack of pointers.
 ///
diff --git a/src/raw/utils/tagged.rs b/src/raw/utils/tagged.rs
index 793ebfb..4168d37 100644
--- a/src/raw/utils/tagged.rs
+++ b/src/raw/utils/tagged.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{AtomicPtr, Ordering};
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 // Polyfill for the unstable strict-provenance APIs.
 #[allow(clippy::missing_safety_doc)]
@@ -96,7 +96,7 @@ impl<T> AtomicPtrFetchOps<T> for AtomicPtr<T> {
     fn fetch_or(&self, value: usize, ordering: Ordering) -> *mut T {
         #[cfg(not(miri))]
         {
-            use std::sync::atomic::AtomicUsize;
+            use crate::sync::atomic::AtomicUsize;
 
             // Safety: `AtomicPtr` and `AtomicUsize` are identical in terms
             // of memory layout. This operation is technically invalid in that
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..e8f973b
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,580 @@
+//! Synchronization primitives used by the table.
+//!
+//! These are the primitives of the standard library. When the crate is compiled with
+//! `--cfg papaya_verif`, thin wrappers are used instead that announce every operation to
+//! a set of hooks, allowing an external harness to observe and schedule the table. The
+//! wrappers have the same layout and behavior as the types they wrap.
+
+#[cfg(not(papaya_verif))]
+pub use std::{
+    hint,
+    sync::{atomic, Mutex},
+    thread,
+};
+
+#[cfg(papaya_verif)]
+pub use self::shim::{atomic, hint, thread, Mutex};
+
+#[cfg(papaya_verif)]
+#[allow(missing_docs, missing_debug_implementations, dead_code)]
+pub mod verif {
+    use std::sync::atomic::Ordering;
+    use std::sync::OnceLock;
+
+    /// The effect of a completed atomic operation.
+    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
+    pub enum Effect {
+        Load,
+        Store,
+        Rmw,
+    }
+
+    /// A notable event, for statistics only.
+    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
+    #[repr(usize)]
+    pub enum Event {
+        NextTable,
+        Promoted,
+        Aborted,
+        WaitCopied,
+        Deferred,
+    }
+
+    /// Hooks called by the wrapped primitives.
+    pub trait Hooks: Sync {
+        /// Called before an atomic operation on the given address.
+        fn before(&self, addr: usize, write: bool);
+
+        /// Called after an atomic operation, which had the given effect and ordering.
+        fn after(&self, addr: usize, effect: Effect, order: Ordering);
+
+        /// Called in place of a store, returns `true` if the hooks perform it later.
+        fn delay(&self, addr: usize, size: usize, value: u64, order: Ordering) -> bool;
+
+        /// The value of a delayed store to the address by the current thread.
+        fn forward(&self, addr: usize) -> Option<u64>;
+
+        /// Returns `true` if a weak compare-exchange should fail spuriously.
+        fn spurious(&self) -> bool;
+
+        /// Called before attempting to acquire a lock.
+        fn lock(&self, addr: usize);
+
+        /// Called after acquiring a lock.
+        fn locked(&self, addr: usize);
+
+        /// Called when a lock is held by another thread, returns `false` if the
+        /// current thread should block on it by itself.
+        fn lock_wait(&self, addr: usize) -> bool;
+
+        /// Called after a lock was released.
+        fn unlocked(&self, addr: usize);
+
+        /// A non-zero identifier for the current thread if it is controlled by
+        /// the hooks.
+        fn thread_id(&self) -> usize;
+
+        /// Parks the current thread, which has a non-zero identifier.
+        fn park(&self);
+
+        /// Unparks the thread with the given non-zero identifier.
+        fn unpark(&self, id: usize);
+
+        /// Called for a spin hint, returns `false` if the thread should issue one.
+        fn spin(&self) -> bool;
+
+        /// Called before and after calling into the memory reclamation scheme.
+        fn reclaim(&self, begin: bool);
+
+        /// Called for notable events.
+        fn event(&self, event: Event);
+    }
+
+    static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
+
+    /// Install the hooks, once per process.
+    pub fn install(hooks: &'static dyn Hooks) {
+        let _ = HOOKS.set(hooks);
+    }
+
+    #[inline]
+    pub(crate) fn hooks() -> Option<&'static dyn Hooks> {
+        HOOKS.get().copied()
+    }
+}
+
+#[cfg(papaya_verif)]
+pub(crate) fn event(event: verif::Event) {
+    if let Some(hooks) = verif::hooks() {
+        hooks.event(event);
+    }
+}
+
+/// Implements the methods of `MapGuard` that access shared memory, calling the hooks.
+#[cfg(papaya_verif)]
+macro_rules! map_guard_hooks {
+    () => {
+        unsafe fn defer_retire<T>(
+            &self,
+            ptr: *mut T,
+            reclaim: unsafe fn(*mut T, &seize::Collector),
+        ) {
+            crate::sync::reclaim(true);
+            unsafe { self.0.defer_retire(ptr, reclaim) };
+            crate::sync::reclaim(false);
+        }
+
+        fn protect<T>(
+            &self,
+            ptr: &std::sync::atomic::AtomicPtr<T>,
+            order: std::sync::atomic::Ordering,
+        ) -> *mut T {
+            crate::sync::guarded::load(ptr, order, || self.0.protect(ptr, order))
+        }
+
+        fn swap<T>(
+            &self,
+            ptr: &std::sync::atomic::AtomicPtr<T>,
+            value: *mut T,
+            order: std::sync::atomic::Ordering,
+        ) -> *mut T {
+            crate::sync::guarded::swap(ptr, order, || self.0.swap(ptr, value, order))
+        }
+
+        fn compare_exchange<T>(
+            &self,
+            ptr: &std::sync::atomic::AtomicPtr<T>,
+            current: *mut T,
+            new: *mut T,
+            success: std::sync::atomic::Ordering,
+            failure: std::sync::atomic::Ordering,
+        ) -> Result<*mut T, *mut T> {
+            crate::sync::guarded::compare_exchange(ptr, success, failure, || {
+                self.0.compare_exchange(ptr, current, new, success, failure)
+            })
+        }
+
+        fn compare_exchange_weak<T>(
+            &self,
+            ptr: &std::sync::atomic::AtomicPtr<T>,
+            current: *mut T,
+            new: *mut T,
+            success: std::sync::atomic::Ordering,
+            failure: std::sync::atomic::Ordering,
+        ) -> Result<*mut T, *mut T> {
+            if crate::sync::atomic::spurious() {
+                return Err(self.protect(ptr, failure));
+            }
+
+            self.compare_exchange(ptr, current, new, success, failure)
+        }
+    };
+}
+
+#[cfg(papaya_verif)]
+pub(crate) use map_guard_hooks;
+
+#[cfg(papaya_verif)]
+pub(crate) fn reclaim(begin: bool) {
+    if let Some(hooks) = verif::hooks() {
+        hooks.reclaim(begin);
+    }
+}
+
+/// Operations performed through a guard.
+#[cfg(papaya_verif)]
+pub(crate) mod guarded {
+    use super::shim::atomic::{after, before, forward};
+    use super::verif::Effect;
+    use std::sync::atomic::{AtomicPtr, Ordering};
+
+    pub fn load<T>(ptr: &AtomicPtr<T>, order: Ordering, f: impl FnOnce() -> *mut T) -> *mut T {
+        let addr = ptr as *const _ as usize;
+        before(addr, false);
+        let value = match forward(addr) {
+            Some(value) => value as usize as *mut T,
+            None => f(),
+        };
+        after(addr, Effect::Load, order);
+        value
+    }
+
+    pub fn swap<T>(ptr: &AtomicPtr<T>, order: Ordering, f: impl FnOnce() -> *mut T) -> *mut T {
+        let addr = ptr as *const _ as usize;
+        before(addr, true);
+        let value = f();
+        after(addr, Effect::Rmw, order);
+        value
+    }
+
+    pub fn compare_exchange<T>(
+        ptr: &AtomicPtr<T>,
+        success: Ordering,
+        failure: Ordering,
+        f: impl FnOnce() -> Result<*mut T, *mut T>,
+    ) -> Result<*mut T, *mut T> {
+        let addr = ptr as *const _ as usize;
+        before(addr, true);
+        let result = f();
+        match result {
+            Ok(_) => after(addr, Effect::Rmw, success),
+            Err(_) => after(addr, Effect::Load, failure),
+        }
+        result
+    }
+}
+
+#[cfg(papaya_verif)]
+#[allow(dead_code)]
+mod shim {
+    use super::verif::{hooks, Effect};
+    use std::ops::{Deref, DerefMut};
+
+    pub mod atomic {
+        use super::*;
+        use std::sync::atomic as real;
+
+        pub use std::sync::atomic::*;
+
+        #[inline]
+        pub(crate) fn before(addr: usize, write: bool) {
+            if let Some(hooks) = hooks() {
+                hooks.before(addr, write);
+            }
+        }
+
+        #[inline]
+        pub(crate) fn after(addr: usize, effect: Effect, order: Ordering) {
+            if let Some(hooks) = hooks() {
+                hooks.after(addr, effect, order);
+            }
+        }
+
+        pub(crate) fn spurious() -> bool {
+            hooks().map_or(false, |hooks| hooks.spurious())
+        }
+
+        pub(crate) fn forward(addr: usize) -> Option<u64> {
+            hooks().and_then(|hooks| hooks.forward(addr))
+        }
+
+        fn delay(addr: usize, size: usize, value: u64, order: Ordering) -> bool {
+            hooks().map_or(false, |hooks| hooks.delay(addr, size, value, order))
+        }
+
+        macro_rules! atomic {
+            ($name:ident, [$($p:ident)?], $value:ty, $to:expr, $from:expr) => {
+                #[repr(transparent)]
+                pub struct $name $(<$p>)? (real::$name $(<$p>)?);
+
+                impl $(<$p>)? $name $(<$p>)? {
+                    pub const fn new(value: $value) -> Self {
+                        Self(real::$name::new(value))
+                    }
+
+                    #[inline]
+                    fn addr(&self) -> usize {
+                        self as *const Self as usize
+                    }
+
+                    #[inline]
+                    pub fn load(&self, order: Ordering) -> $value {
+                        before(self.addr(), false);
+                        let value = match forward(self.addr()) {
+                            Some(value) => ($from)(value),
+                            None => self.0.load(order),
+                        };
+                        after(self.addr(), Effect::Load, order);
+                        value
+                    }
+
+                    #[inline]
+                    pub fn store(&self, value: $value, order: Ordering) {
+                        before(self.addr(), true);
+                        let size = std::mem::size_of::<Self>();
+                        if !delay(self.addr(), size, ($to)(value), order) {
+                            self.0.store(value, order);
+                        }
+                        after(self.addr(), Effect::Store, order);
+                    }
+
+                    #[inline]
+                    pub fn swap(&self, value: $value, order: Ordering) -> $value {
+                        before(self.addr(), true);
+                        let value = self.0.swap(value, order);
+                        after(self.addr(), Effect::Rmw, order);
+                        value
+                    }
+
+                    #[inline]
+                    pub fn compare_exchange(
+                        &self,
+                        current: $value,
+                        new: $value,
+                        success: Ordering,
+                        failure: Ordering,
+                    ) -> Result<$value, $value> {
+                        before(self.addr(), true);
+                        let result = self.0.compare_exchange(current, new, success, failure);
+                        match result {
+                            Ok(_) => after(self.addr(), Effect::Rmw, success),
+                            Err(_) => after(self.addr(), Effect::Load, failure),
+                        }
+                        result
+                    }
+
+                    #[inline]
+                    pub fn compare_exchange_weak(
+                        &self,
+                        current: $value,
+                        new: $value,
+                        success: Ordering,
+                        failure: Ordering,
+                    ) -> Result<$value, $value> {
+                        if spurious() {
+                            return Err(self.load(failure));
+                        }
+                        self.compare_exchange(current, new, success, failure)
+                    }
+
+                    #[inline]
+                    pub fn fetch_update<F>(
+                        &self,
+                        set_order: Ordering,
+                        fetch_order: Ordering,
+                        mut f: F,
+                    ) -> Result<$value, $value>
+                    where
+                        F: FnMut($value) -> Option<$value>,
+                    {
+                        let mut prev = self.load(fetch_order);
+                        while let Some(next) = f(prev) {
+                            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                                Ok(value) => return Ok(value),
+                                Err(found) => prev = found,
+                            }
+                        }
+                        Err(prev)
+                    }
+                }
+
+                // Operations that are not wrapped are available on the underlying type.
+                impl $(<$p>)? Deref for $name $(<$p>)? {
+                    type Target = real::$name $(<$p>)?;
+
+                    #[inline]
+                    fn deref(&self) -> &Self::Target {
+                        &self.0
+                    }
+                }
+
+                impl $(<$p>)? DerefMut for $name $(<$p>)? {
+                    #[inline]
+                    fn deref_mut(&mut self) -> &mut Self::Target {
+                        &mut self.0
+                    }
+                }
+
+                impl $(<$p>)? Default for $name $(<$p>)? {
+                    fn default() -> Self {
+                        Self(Default::default())
+                    }
+                }
+            };
+        }
+
+        macro_rules! fetch_ops {
+            ($name:ident, $value:ty, [$($op:ident),*]) => {
+                impl $name {
+                    $(
+                        #[inline]
+                        pub fn $op(&self, value: $value, order: Ordering) -> $value {
+                            before(self.addr(), true);
+                            let value = self.0.$op(value, order);
+                            after(self.addr(), Effect::Rmw, order);
+                            value
+                        }
+                    )*
+                }
+            };
+        }
+
+        macro_rules! atomic_int {
+            ($name:ident, $value:ty) => {
+                atomic!($name, [], $value, |x| x as u64, |x| x as $value);
+                fetch_ops!(
+                    $name,
+                    $value,
+                    [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min]
+                );
+            };
+        }
+
+        atomic!(
+            AtomicPtr,
+            [T],
+            *mut T,
+            |x| x as usize as u64,
+            |x| x as usize as *mut T
+        );
+        atomic!(AtomicBool, [], bool, |x| x as u64, |x| x != 0);
+        fetch_ops!(AtomicBool, bool, [fetch_and, fetch_or, fetch_xor]);
+        atomic_int!(AtomicU8, u8);
+        atomic_int!(AtomicU32, u32);
+        atomic_int!(AtomicU64, u64);
+        atomic_int!(AtomicUsize, usize);
+        atomic_int!(AtomicIsize, isize);
+    }
+
+    pub mod hint {
+        pub fn spin_loop() {
+            if !super::hooks().map_or(false, |hooks| hooks.spin()) {
+                std::hint::spin_loop();
+            }
+        }
+    }
+
+    pub mod thread {
+        use super::*;
+
+        /// A handle to a thread.
+        #[derive(Clone)]
+        pub struct Thread(std::thread::Thread, usize);
+
+        impl Thread {
+            pub fn unpark(&self) {
+                match (self.1, hooks()) {
+                    (1.., Some(hooks)) => hooks.unpark(self.1),
+                    _ => self.0.unpark(),
+                }
+            }
+        }
+
+        impl Deref for Thread {
+            type Target = std::thread::Thread;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        pub fn current() -> Thread {
+            let id = hooks().map_or(0, |hooks| hooks.thread_id());
+            Thread(std::thread::current(), id)
+        }
+
+        pub fn park() {
+            match hooks() {
+                Some(hooks) if hooks.thread_id() != 0 => hooks.park(),
+                _ => std::thread::park(),
+            }
+        }
+
+        pub fn yield_now() {
+            if !hooks().map_or(false, |hooks| hooks.spin()) {
+                std::thread::yield_now();
+            }
+        }
+    }
+
+    use std::sync::{self, LockResult, PoisonError, TryLockError, TryLockResult};
+
+    #[derive(Default)]
+    pub struct Mutex<T: ?Sized>(sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Mutex<T> {
+            Mutex(sync::Mutex::new(value))
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        fn addr(&self) -> usize {
+            self as *const Self as *const () as usize
+        }
+
+        fn guard<'a>(&'a self, guard: sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+            if let Some(hooks) = hooks() {
+                hooks.locked(self.addr());
+            }
+
+            MutexGuard(Some(guard), self.addr())
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let Some(hooks) = hooks() else {
+                return match self.0.lock() {
+                    Ok(guard) => Ok(self.guard(guard)),
+                    Err(err) => Err(PoisonError::new(self.guard(err.into_inner()))),
+                };
+            };
+
+            hooks.lock(self.addr());
+
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(self.guard(guard)),
+                    Err(TryLockError::Poisoned(err)) => {
+                        return Err(PoisonError::new(self.guard(err.into_inner())))
+                    }
+                    Err(TryLockError::WouldBlock) => {
+                        if !hooks.lock_wait(self.addr()) {
+                            return match self.0.lock() {
+                                Ok(guard) => Ok(self.guard(guard)),
+                                Err(err) => Err(PoisonError::new(self.guard(err.into_inner()))),
+                            };
+                        }
+                    }
+                }
+            }
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            if let Some(hooks) = hooks() {
+                hooks.lock(self.addr());
+            }
+
+            match self.0.try_lock() {
+                Ok(guard) => Ok(self.guard(guard)),
+                Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(
+                    self.guard(err.into_inner()),
+                ))),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            }
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+    }
+
+    pub struct MutexGuard<'a, T: ?Sized>(Option<sync::MutexGuard<'a, T>>, usize);
+
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.0.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.0.as_mut().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.0 = None;
+
+            if let Some(hooks) = hooks() {
+                hooks.unlocked(self.1);
+            }
+        }
+    }
+}
-- 
2.43.0


From 1d496b83a7a4df2e5486925ff93a83da944bef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 02/12] Verification hooks: distinguish stores and fences

---
 src/sync.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index e8f973b..fd85831 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -21,7 +21,7 @@ pub mod verif {
     use std::sync::atomic::Ordering;
     use std::sync::OnceLock;
 
-    /// The effect of a completed atomic operation.
+    /// The effect of an atomic operation.
     #[derive(Clone, Copy, PartialEq, Eq, Debug)]
     pub enum Effect {
         Load,
@@ -43,11 +43,14 @@ pub mod verif {
     /// Hooks called by the wrapped primitives.
     pub trait Hooks: Sync {
         /// Called before an atomic operation on the given address.
-        fn before(&self, addr: usize, write: bool);
+        fn before(&self, addr: usize, access: Effect);
 
         /// Called after an atomic operation, which had the given effect and ordering.
         fn after(&self, addr: usize, effect: Effect, order: Ordering);
 
+        /// Called in place of a fence, returns `false` if the thread should issue one.
+        fn fence(&self, order: Ordering) -> bool;
+
         /// Called in place of a store, returns `true` if the hooks perform it later.
         fn delay(&self, addr: usize, size: usize, value: u64, order: Ordering) -> bool;
 
@@ -190,7 +193,7 @@ pub(crate) mod guarded {
 
     pub fn load<T>(ptr: &AtomicPtr<T>, order: Ordering, f: impl FnOnce() -> *mut T) -> *mut T {
         let addr = ptr as *const _ as usize;
-        before(addr, false);
+        before(addr, Effect::Load);
         let value = match forward(addr) {
             Some(value) => value as usize as *mut T,
             None => f(),
@@ -201,7 +204,7 @@ pub(crate) mod guarded {
 
     pub fn swap<T>(ptr: &AtomicPtr<T>, order: Ordering, f: impl FnOnce() -> *mut T) -> *mut T {
         let addr = ptr as *const _ as usize;
-        before(addr, true);
+        before(addr, Effect::Rmw);
         let value = f();
         after(addr, Effect::Rmw, order);
         value
@@ -214,7 +217,7 @@ pub(crate) mod guarded {
         f: impl FnOnce() -> Result<*mut T, *mut T>,
     ) -> Result<*mut T, *mut T> {
         let addr = ptr as *const _ as usize;
-        before(addr, true);
+        before(addr, Effect::Rmw);
         let result = f();
         match result {
             Ok(_) => after(addr, Effect::Rmw, success),
@@ -237,9 +240,9 @@ mod shim {
         pub use std::sync::atomic::*;
 
         #[inline]
-        pub(crate) fn before(addr: usize, write: bool) {
+        pub(crate) fn before(addr: usize, access: Effect) {
             if let Some(hooks) = hooks() {
-                hooks.before(addr, write);
+                hooks.before(addr, access);
             }
         }
 
@@ -250,6 +253,13 @@ mod shim {
             }
         }
 
+        #[inline]
+        pub fn fence(order: Ordering) {
+            if !hooks().map_or(false, |hooks| hooks.fence(order)) {
+                real::fence(order);
+            }
+        }
+
         pub(crate) fn spurious() -> bool {
             hooks().map_or(false, |hooks| hooks.spurious())
         }
@@ -279,7 +289,7 @@ mod shim {
 
                     #[inline]
                     pub fn load(&self, order: Ordering) -> $value {
-                        before(self.addr(), false);
+                        before(self.addr(), Effect::Load);
                         let value = match forward(self.addr()) {
                             Some(value) => ($from)(value),
                             None => self.0.load(order),
@@ -290,7 +300,7 @@ mod shim {
 
                     #[inline]
                     pub fn store(&self, value: $value, order: Ordering) {
-                        before(self.addr(), true);
+                        before(self.addr(), Effect::Store);
                         let size = std::mem::size_of::<Self>();
                         if !delay(self.addr(), size, ($to)(value), order) {
                             self.0.store(value, order);
@@ -300,7 +310,7 @@ mod shim {
 
                     #[inline]
                     pub fn swap(&self, value: $value, order: Ordering) -> $value {
-                        before(self.addr(), true);
+                        before(self.addr(), Effect::Rmw);
                         let value = self.0.swap(value, order);
                         after(self.addr(), Effect::Rmw, order);
                         value
@@ -314,7 +324,7 @@ mod shim {
                         success: Ordering,
                         failure: Ordering,
                     ) -> Result<$value, $value> {
-                        before(self.addr(), true);
+                        before(self.addr(), Effect::Rmw);
                         let result = self.0.compare_exchange(current, new, success, failure);
                         match result {
                             Ok(_) => after(self.addr(), Effect::Rmw, success),
@@ -389,7 +399,7 @@ mod shim {
                     $(
                         #[inline]
                         pub fn $op(&self, value: $value, order: Ordering) -> $value {
-                            before(self.addr(), true);
+                            before(self.addr(), Effect::Rmw);
                             let value = self.0.$op(value, order);
                             after(self.addr(), Effect::Rmw, order);
                             value
-- 
2.43.0


From 44b7954828bdd162f176dd48ede9958b117b35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 03/12] fix: shrinking panicked when the initial capacity was
 not a power of two

---
 src/raw/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index ab5ac90..560c256 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -232,14 +232,15 @@ impl<K, V, S> HashMap<K, V, S> {
         }
 
         // Initialize the table and mark it as the root.
-        let mut table = Table::alloc(probe::entries_for(capacity));
+        let initial_capacity = probe::entries_for(capacity);
+        let mut table = Table::alloc(initial_capacity);
         *table.state_mut().status.get_mut() = State::PROMOTED;
 
         HashMap {
             hasher,
             resize,
             collector,
-            initial_capacity: capacity,
+            initial_capacity,
             table: AtomicPtr::new(table.raw),
             count: Counter::default(),
         }
-- 
2.43.0


From ad42afb8672b63a6b72ac6164bb7d9440bc11c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 04/12] fix: wake threads parked on a table whose resize is
 aborted

---
 src/raw/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 560c256..590c5e5 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2073,8 +2073,8 @@ where
                         // Allocate the next table.
                         let allocated = self.get_or_alloc_next(None, next);
 
-                        // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        // Wake anyone waiting for the copy to the aborted table.
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From bf3b23726841417c47d36448d3c2e17d7d50215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 05/12] fix: retire the tables that aborted resizes leave
 behind

---
 src/raw/mod.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 590c5e5..11e8dbd 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2490,17 +2490,25 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
-                    // Retire the old table.
-                    //
-                    // Safety: `table.raw` is a valid pointer to the table we just copied from.
-                    // Additionally, the CAS above made the previous table unreachable from the
-                    // root pointer, allowing it to be safely retired.
-                    unsafe {
-                        guard.defer_retire(table.raw, |table, collector| {
-                            // Note that we do not drop entries because they have been copied to
-                            // the new root.
-                            drop_table(Table::from_raw(table), collector);
-                        });
+                    // Retire the old table, as well as any tables between it and the new root
+                    // that an aborted resize left behind.
+                    let mut retired = *table;
+                    while retired.raw != next.raw {
+                        let following = retired.next_table().unwrap();
+
+                        // Safety: `retired.raw` is a valid pointer to the table we just copied from,
+                        // or to an aborted table that succeeds it. Additionally, the CAS above made
+                        // those tables unreachable from the root pointer, allowing them to be safely
+                        // retired.
+                        unsafe {
+                            guard.defer_retire(retired.raw, |table, collector| {
+                                // Note that we do not drop entries because they have been copied to
+                                // the new root.
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+
+                        retired = following;
                     }
                 }
 
-- 
2.43.0


From 932e263184d9e51719680a99e233a6fc2cb7bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 06/12] fix: inserting an element a set already has replaced
 the stored element

---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..4bda0de 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -427,10 +427,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
@@ -773,10 +773,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
-- 
2.43.0


From eca5d31e313d90014307c155fc7fa21c5b64e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 07/12] fix: HashSet::retain could not be given a guard of the
 set

---
 src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 4bda0de..c15f70a 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -533,7 +533,7 @@ where
     /// assert_eq!(set.pin().contains(&2), true);
     /// ```
     #[inline]
-    pub fn retain<F>(&mut self, mut f: F, guard: &impl Guard)
+    pub fn retain<F>(&self, mut f: F, guard: &impl Guard)
     where
         F: FnMut(&K) -> bool,
     {
-- 
2.43.0


From 7029e7c7ed6a0e1c3f1f7f5822a3286ebdf98666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 08/12] fix: incremental resizing with a chunk size of zero
 never completed

---
 src/raw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 11e8dbd..02ccc41 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2000,7 +2000,8 @@ where
         match self.resize {
             ResizeMode::Blocking => self.help_copy_blocking(table, guard),
             ResizeMode::Incremental(chunk) => {
-                let copied_to = self.help_copy_incremental(chunk, copy_all, guard);
+                // A chunk size of zero would never complete the resize.
+                let copied_to = self.help_copy_incremental(chunk.max(1), copy_all, guard);
 
                 if !copy_all {
                     // If we weren't trying to linearize, we have to write to the next table
-- 
2.43.0


From 8e644cdd6513ab84fbb5f59d856e651648e8e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 09/12] fix: compute never helped to complete an incremental
 resize

A map that is only changed through compute (or update, get_or_insert_with and
the other operations that share its implementation) never promoted a new table
in incremental mode. Every further table was added to a chain that operations
had to walk and that was not reclaimed until the map was dropped.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 02ccc41..5aea95f 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1573,7 +1573,7 @@ where
         }
 
         let (h1, h2) = self.hash(new_entry.key());
-        let mut help_copy = false;
+        let mut help_copy = true;
 
         loop {
             // Initialize the probe state.
-- 
2.43.0


From 72e3da42ed748d2896186dbaa7b56593d21bac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 10/12] fix: entries of small or zero-sized keys and values
 were not aligned for pointer tags

---
 src/raw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 5aea95f..1f463ec 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,9 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The alignment reserves the lower 3 bits of a pointer to an entry for the tag.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From 63a738434b242bc6e39e1555dc9342bec715befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 11/12] fix: incremental resizing with a very large chunk size
 copied entries twice

---
 src/raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 1f463ec..4bd1998 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2214,6 +2214,9 @@ where
             return table;
         };
 
+        // Very large chunks would make the claim counter wrap around.
+        let chunk = chunk.min(table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From 913cf9872357b0a48ed727f794c8ff8817522868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:41 +0000
Subject: [PATCH 12/12] fix: a panicking reserve left the map's allocation lock
 poisoned

---
 src/raw/alloc.rs | 16 ++++++++++------
 src/raw/mod.rs   |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 48b690e..eb207e1 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -210,12 +210,16 @@ impl<T> Table<T> {
     }
 
     // Returns the non-zero layout for a table allocation.
-    fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
-        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
+    //
+    // Panics if the size of the allocation overflows.
+    pub fn layout(len: usize) -> Layout {
+        // The metadata table and the entry pointers.
+        let size = len
+            .checked_mul(mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>())
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
+        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).expect("capacity overflow")
     }
 }
 
diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 4bd1998..4d37750 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1904,6 +1904,12 @@ where
             return next;
         }
 
+        // Reject impossible capacities before acquiring the allocation lock, as a panic would
+        // poison it.
+        if let Some(capacity) = capacity {
+            Table::<Entry<K, V>>::layout(capacity);
+        }
+
         let state = table.state();
 
         // Otherwise, try to acquire the allocation lock.
-- 
2.43.0

