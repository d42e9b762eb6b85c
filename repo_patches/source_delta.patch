From 652c094636dc6227d8258b48c4d978815a92e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 01/16] fix: IsEmpty no longer parks forever when the vector
 ends with its last change

When Len reported an unchanged emptiness, IsEmpty returned Pending even if the
vector had already ended, and then nothing would ever wake up the task.
---
 src/signal_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..b881185 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1887,9 +1887,9 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { len: mut signal, old } = self.project();
 
-        match len.poll_change(cx) {
+        match signal.as_mut().poll_change(cx) {
             Poll::Ready(Some(len)) => {
                 let new = Some(len == 0);
 
@@ -1897,6 +1897,10 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
                     *old = new;
                     Poll::Ready(new)
 
+                // If the input has already ended then nothing will wake up the task
+                } else if signal.signal.is_none() {
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 7167e792cdc4994ca7d4eee3f05d191a5d6af726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 02/16] fix: filter and filter_map emit the right old_index for
 a Move

The position was computed after the element had been put back, so moving it
backwards gave an index that was too large, or out of range.
---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index b881185..5601044 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2071,10 +2071,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must be calculated before the value is reinserted
+                        let old_index = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From 8cc921447e785ff3a345f21d510c622d4d16e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:54 +0000
Subject: [PATCH 03/16] fix: filter_signal_cloned emits the right old_index for
 a Move

The position was computed after the element had been put back, so moving it
backwards gave an index that was too large, or out of range.
---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 5601044..7bcd69b 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1768,11 +1768,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must be calculated before the state is reinserted
+                            let old_index = Self::find_index(signals, old_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
-- 
2.43.0


From 268a498226eeca18d4e568ccb8d7fc42427bcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/16] fix: signal_vec chain no longer parks after a diff that
 produced no output

---
 src/signal_vec.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 7bcd69b..45e1332 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -790,10 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // `Ready(None)` means that the left side made progress, but there is nothing to output
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,14 +836,14 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
@@ -927,9 +928,15 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // `Ready(None)` means that the right side made progress, but there is nothing to output
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
-        self.process_right_change(change)
+        let progress = matches!(change, Some(Poll::Ready(Some(_))));
+
+        match self.process_right_change(change) {
+            None if !progress => Poll::Pending,
+            output => Poll::Ready(output),
+        }
     }
 }
 
@@ -947,18 +954,16 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_left(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
-            if let Some(change) = this.process_right(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_right(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
             if this.left.is_none() && this.right.is_none() {
-- 
2.43.0


From d3db745a7b2be1e5c91696ef9b99a3dc33562358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 05/16] fix: signal_vec flatten removes and moves the elements
 of removed and moved inner vectors

---
 src/signal_vec.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 45e1332..cd0ed6e 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1096,6 +1096,15 @@ impl<A> FlattenState<A> where A: SignalVec {
     }
 }
 
+// Removes the output of `inner[index]`
+fn flatten_remove<A>(inner: &[FlattenState<A>], index: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) where A: SignalVec {
+    let start: usize = inner[..index].iter().map(|state| state.len).sum();
+
+    for index in (start..(start + inner[index].len)).rev() {
+        pending.push(VecDiff::RemoveAt { index });
+    }
+}
+
 #[pin_project(project = FlattenProj)]
 #[must_use = "SignalVecs do nothing unless polled"]
 pub struct Flatten<A> where A: SignalVec, A::Item: SignalVec {
@@ -1150,19 +1159,34 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            flatten_remove(this.inner, index, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
+                            flatten_remove(this.inner, index, &mut pending);
                             this.inner.remove(index);
                         },
                         VecDiff::Move { old_index, new_index } => {
+                            let old_start: usize = this.inner[..old_index].iter().map(|state| state.len).sum();
                             let value = this.inner.remove(old_index);
+                            let new_start: usize = this.inner[..new_index].iter().map(|state| state.len).sum();
+
+                            for offset in 0..value.len {
+                                if old_start < new_start {
+                                    pending.push(VecDiff::Move { old_index: old_start, new_index: new_start + value.len - 1 });
+
+                                } else if old_start > new_start {
+                                    pending.push(VecDiff::Move { old_index: old_start + offset, new_index: new_start + offset });
+                                }
+                            }
+
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
+                            flatten_remove(this.inner, this.inner.len() - 1, &mut pending);
                             this.inner.pop().unwrap();
                         },
                         VecDiff::Clear {} => {
-- 
2.43.0


From 43d086477b38679eba7d82cfbf58cb012a6b2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 06/16] fix: switch_signal_vec empties its output before it
 ends

---
 src/signal/signal.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..6765415 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,11 +1728,9 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
-                        Poll::Ready(None)
-
-                    } else {
-                        new_signal_vec(len)
+                    match new_signal_vec(len) {
+                        Poll::Pending if signal_done => Poll::Ready(None),
+                        output => output,
                     }
                 },
 
-- 
2.43.0


From 42a56f1f35d976fb6e492ce02857099fead3ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 07/16] fix: key_cloned no longer polls its map again after the
 map ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..a650061 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,8 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,12 +440,16 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
+                None => {
+                    true
+                },
             }
         };
 
-- 
2.43.0


From 2a6d13e011571ec7094d083b112a2f6a7edb8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 08/16] verification hooks: synchronization primitives can be
 scheduled (cfg vp_hooks)

---
 src/atomic.rs             |   2 +-
 src/future.rs             |   4 +-
 src/lib.rs                |   8 ++
 src/signal/broadcaster.rs |   4 +-
 src/signal/channel.rs     |   4 +-
 src/signal/mutable.rs     |   4 +-
 src/signal_map.rs         |   2 +-
 src/signal_vec.rs         |   2 +-
 src/sync.rs               | 272 ++++++++++++++++++++++++++++++++++++++
 9 files changed, 291 insertions(+), 11 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/atomic.rs b/src/atomic.rs
index 0791417..139f9ae 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{AtomicPtr, Ordering};
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 
 /*#[derive(Debug)]
diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..1f2f6c6 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -1,10 +1,10 @@
 use std::pin::Pin;
 // TODO use parking_lot ?
-use std::sync::{Arc, Weak, Mutex};
+use crate::sync::{Arc, Weak, Mutex};
 use std::future::Future;
 use std::task::{Poll, Waker, Context};
 // TODO use parking_lot ?
-use std::sync::atomic::{AtomicBool, Ordering};
+use crate::sync::atomic::{AtomicBool, Ordering};
 use discard::{Discard, DiscardOnDrop};
 use pin_project::pin_project;
 
diff --git a/src/lib.rs b/src/lib.rs
index 3a64366..ae62f94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![warn(unreachable_pub)]
 // missing_docs
 #![deny(warnings, missing_debug_implementations, macro_use_extern_crate)]
+// `vp_hooks` is only set for verification, see `src/sync.rs`
+#![allow(unexpected_cfgs)]
 
 ///! It is *very highly* recommended to read the tutorial.
 ///! It explains all of the concepts you will need to use Signals effectively.
@@ -21,8 +23,14 @@ pub mod signal;
 pub mod signal_vec;
 pub mod signal_map;
 
+mod sync;
 mod atomic;
 mod future;
+
+#[cfg(vp_hooks)]
+#[doc(hidden)]
+pub use crate::sync::hooked::{install as vp_install, Scheduler as VpScheduler};
+
 pub use crate::future::{cancelable_future, CancelableFutureHandle, CancelableFuture};
 
 
diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..e9763da 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -2,8 +2,8 @@ use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
 use std::fmt::Debug;
-use std::sync::{Arc, Mutex, RwLock, Weak};
-use std::sync::atomic::{AtomicBool, Ordering};
+use crate::sync::{Arc, Mutex, RwLock, Weak};
+use crate::sync::atomic::{AtomicBool, Ordering};
 use std::task::{Poll, Waker, Context};
 use futures_util::task::{self, ArcWake};
 use crate::signal::ChangedWaker;
diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..101043f 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -1,8 +1,8 @@
 use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
-use std::sync::{Arc, Weak};
-use std::sync::atomic::{AtomicUsize, Ordering};
+use crate::sync::{Arc, Weak};
+use crate::sync::atomic::{AtomicUsize, Ordering};
 use std::task::{Poll, Context, Waker};
 use crate::atomic::AtomicOption;
 
diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..25565a7 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -5,9 +5,9 @@ use std::pin::Pin;
 use std::marker::Unpin;
 use std::ops::{Deref, DerefMut};
 // TODO use parking_lot ?
-use std::sync::{Arc, Weak, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use crate::sync::{Arc, Weak, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 // TODO use parking_lot ?
-use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use crate::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::task::{Poll, Waker, Context};
 
 
diff --git a/src/signal_map.rs b/src/signal_map.rs
index a650061..2720d7c 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -520,7 +520,7 @@ mod mutable_btree_map {
     use std::cmp::{Ord, Ordering};
     use std::hash::{Hash, Hasher};
     use std::collections::BTreeMap;
-    use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+    use crate::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
     use std::task::{Poll, Context};
     use futures_channel::mpsc;
     use futures_util::stream::StreamExt;
diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index cd0ed6e..dfe204b 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2825,7 +2825,7 @@ mod mutable_vec {
     use std::borrow::Borrow;
     use std::cmp::{Ord, Ordering};
     use std::hash::{Hash, Hasher};
-    use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+    use crate::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
     use std::task::{Poll, Context};
     use futures_channel::mpsc;
     use futures_util::stream::StreamExt;
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..f96feb2
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,272 @@
+//! The synchronization primitives used by this crate.
+//!
+//! Normally these are exactly the ones of `std::sync`. With `--cfg vp_hooks` (which is
+//! only used for verification) they are thin wrappers around them, which hand control to
+//! a scheduler before every operation.
+
+#[cfg(not(vp_hooks))]
+pub(crate) use std::sync::*;
+
+#[cfg(vp_hooks)]
+pub(crate) use self::hooked::*;
+
+#[cfg(vp_hooks)]
+pub(crate) mod hooked {
+    use std::cell::RefCell;
+    use std::fmt;
+    use std::ops::{Deref, DerefMut};
+    use std::sync::TryLockError;
+
+    pub(crate) use std::sync::*;
+
+    /// Decides which thread runs next. All of this is per thread: a thread without a
+    /// scheduler uses the primitives directly.
+    pub trait Scheduler: Send + Sync {
+        /// The current thread is about to perform an operation on the object at `addr`.
+        fn step(&self, what: &'static str, addr: usize);
+        /// The current thread cannot go on before the object at `addr` is released.
+        fn blocked(&self, addr: usize);
+        /// The object at `addr` was released.
+        fn released(&self, addr: usize);
+    }
+
+    thread_local! {
+        static SCHEDULER: RefCell<Option<Arc<dyn Scheduler>>> = RefCell::new(None);
+    }
+
+    /// Installs (or removes) the scheduler of the current thread.
+    pub fn install(scheduler: Option<Arc<dyn Scheduler>>) {
+        SCHEDULER.with(|x| *x.borrow_mut() = scheduler);
+    }
+
+    fn scheduler() -> Option<Arc<dyn Scheduler>> {
+        SCHEDULER.try_with(|x| x.borrow().clone()).unwrap_or(None)
+    }
+
+    fn step(what: &'static str, addr: usize) {
+        if let Some(s) = scheduler() {
+            s.step(what, addr);
+        }
+    }
+
+    fn released(addr: usize) {
+        if let Some(s) = scheduler() {
+            s.released(addr);
+        }
+    }
+
+    fn acquire<G>(what: &'static str, addr: usize, wait: impl FnOnce() -> LockResult<G>, attempt: impl Fn() -> TryLockResult<G>) -> LockResult<G> {
+        if let Some(s) = scheduler() {
+            loop {
+                s.step(what, addr);
+
+                match attempt() {
+                    Ok(guard) => return Ok(guard),
+                    Err(TryLockError::Poisoned(error)) => return Err(error),
+                    Err(TryLockError::WouldBlock) => s.blocked(addr),
+                }
+            }
+
+        } else {
+            wait()
+        }
+    }
+
+    macro_rules! lock {
+        ($Lock:ident, { $($method:ident, $attempt:ident => $Guard:ident;)+ }) => {
+            pub(crate) struct $Lock<A>(std::sync::$Lock<A>);
+
+            impl<A> $Lock<A> {
+                pub(crate) fn new(value: A) -> Self {
+                    $Lock(std::sync::$Lock::new(value))
+                }
+
+                #[allow(unused)]
+                pub(crate) fn into_inner(self) -> LockResult<A> {
+                    self.0.into_inner()
+                }
+
+                #[allow(unused)]
+                pub(crate) fn get_mut(&mut self) -> LockResult<&mut A> {
+                    self.0.get_mut()
+                }
+
+                #[allow(unused)]
+                pub(crate) fn is_poisoned(&self) -> bool {
+                    self.0.is_poisoned()
+                }
+
+                fn addr(&self) -> usize {
+                    self as *const Self as *const () as usize
+                }
+
+                $(
+                    pub(crate) fn $method(&self) -> LockResult<$Guard<'_, A>> {
+                        let addr = self.addr();
+
+                        match acquire(stringify!($method), addr, || self.0.$method(), || self.0.$attempt()) {
+                            Ok(guard) => Ok($Guard(Some(guard), addr)),
+                            Err(error) => Err(PoisonError::new($Guard(Some(error.into_inner()), addr))),
+                        }
+                    }
+
+                    #[allow(unused)]
+                    pub(crate) fn $attempt(&self) -> TryLockResult<$Guard<'_, A>> {
+                        let addr = self.addr();
+                        step(stringify!($attempt), addr);
+
+                        match self.0.$attempt() {
+                            Ok(guard) => Ok($Guard(Some(guard), addr)),
+                            Err(TryLockError::Poisoned(error)) => Err(TryLockError::Poisoned(PoisonError::new($Guard(Some(error.into_inner()), addr)))),
+                            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                        }
+                    }
+                )+
+            }
+
+            impl<A> fmt::Debug for $Lock<A> where A: fmt::Debug {
+                fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    self.0.fmt(fmt)
+                }
+            }
+
+            impl<A> Default for $Lock<A> where A: Default {
+                fn default() -> Self {
+                    $Lock::new(A::default())
+                }
+            }
+
+            $(
+                pub(crate) struct $Guard<'a, A>(Option<std::sync::$Guard<'a, A>>, usize);
+
+                impl<'a, A> Deref for $Guard<'a, A> {
+                    type Target = A;
+
+                    fn deref(&self) -> &A {
+                        self.0.as_ref().unwrap()
+                    }
+                }
+
+                impl<'a, A> fmt::Debug for $Guard<'a, A> where A: fmt::Debug {
+                    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+                        self.0.fmt(fmt)
+                    }
+                }
+
+                impl<'a, A> Drop for $Guard<'a, A> {
+                    fn drop(&mut self) {
+                        self.0 = None;
+                        released(self.1);
+                    }
+                }
+            )+
+        };
+    }
+
+    lock!(Mutex, { lock, try_lock => MutexGuard; });
+    lock!(RwLock, { read, try_read => RwLockReadGuard; write, try_write => RwLockWriteGuard; });
+
+    impl<'a, A> DerefMut for MutexGuard<'a, A> {
+        fn deref_mut(&mut self) -> &mut A {
+            self.0.as_mut().unwrap()
+        }
+    }
+
+    impl<'a, A> DerefMut for RwLockWriteGuard<'a, A> {
+        fn deref_mut(&mut self) -> &mut A {
+            self.0.as_mut().unwrap()
+        }
+    }
+
+    pub(crate) mod atomic {
+        use super::step;
+        use std::fmt;
+        use std::ops::Deref;
+
+        pub(crate) use std::sync::atomic::*;
+
+        macro_rules! atomic {
+            ($Atomic:ident, [$($generic:ident)?], $Value:ty, { $($method:ident($($arg:ident: $Arg:ty),*) -> $Output:ty;)+ }) => {
+                pub(crate) struct $Atomic$(<$generic>)?(std::sync::atomic::$Atomic$(<$generic>)?);
+
+                impl$(<$generic>)? $Atomic$(<$generic>)? {
+                    pub(crate) fn new(value: $Value) -> Self {
+                        $Atomic(std::sync::atomic::$Atomic::new(value))
+                    }
+
+                    #[allow(unused)]
+                    pub(crate) fn into_inner(self) -> $Value {
+                        self.0.into_inner()
+                    }
+
+                    #[allow(unused)]
+                    pub(crate) fn get_mut(&mut self) -> &mut $Value {
+                        self.0.get_mut()
+                    }
+
+                    #[allow(unused)]
+                    pub(crate) fn try_update<F>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$Value, $Value> where F: FnMut($Value) -> Option<$Value> {
+                        step("try_update", self as *const Self as *const () as usize);
+                        self.0.try_update(set, fetch, f)
+                    }
+
+                    #[allow(unused, deprecated)]
+                    pub(crate) fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$Value, $Value> where F: FnMut($Value) -> Option<$Value> {
+                        step("fetch_update", self as *const Self as *const () as usize);
+                        self.0.fetch_update(set, fetch, f)
+                    }
+
+                    $(
+                        #[allow(unused)]
+                        pub(crate) fn $method(&self, $($arg: $Arg),*) -> $Output {
+                            step(stringify!($method), self as *const Self as *const () as usize);
+                            self.0.$method($($arg),*)
+                        }
+                    )+
+                }
+
+                impl$(<$generic>)? Deref for $Atomic$(<$generic>)? {
+                    type Target = std::sync::atomic::$Atomic$(<$generic>)?;
+
+                    fn deref(&self) -> &Self::Target {
+                        &self.0
+                    }
+                }
+
+                impl$(<$generic>)? fmt::Debug for $Atomic$(<$generic>)? {
+                    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+                        self.0.fmt(fmt)
+                    }
+                }
+            };
+        }
+
+        atomic!(AtomicBool, [], bool, {
+            load(ordering: Ordering) -> bool;
+            store(value: bool, ordering: Ordering) -> ();
+            swap(value: bool, ordering: Ordering) -> bool;
+            fetch_and(value: bool, ordering: Ordering) -> bool;
+            fetch_or(value: bool, ordering: Ordering) -> bool;
+            compare_exchange(old: bool, new: bool, success: Ordering, failure: Ordering) -> Result<bool, bool>;
+            compare_exchange_weak(old: bool, new: bool, success: Ordering, failure: Ordering) -> Result<bool, bool>;
+        });
+
+        atomic!(AtomicUsize, [], usize, {
+            load(ordering: Ordering) -> usize;
+            store(value: usize, ordering: Ordering) -> ();
+            swap(value: usize, ordering: Ordering) -> usize;
+            fetch_add(value: usize, ordering: Ordering) -> usize;
+            fetch_sub(value: usize, ordering: Ordering) -> usize;
+            compare_exchange(old: usize, new: usize, success: Ordering, failure: Ordering) -> Result<usize, usize>;
+            compare_exchange_weak(old: usize, new: usize, success: Ordering, failure: Ordering) -> Result<usize, usize>;
+        });
+
+        atomic!(AtomicPtr, [A], *mut A, {
+            load(ordering: Ordering) -> *mut A;
+            store(value: *mut A, ordering: Ordering) -> ();
+            swap(value: *mut A, ordering: Ordering) -> *mut A;
+            compare_exchange(old: *mut A, new: *mut A, success: Ordering, failure: Ordering) -> Result<*mut A, *mut A>;
+            compare_exchange_weak(old: *mut A, new: *mut A, success: Ordering, failure: Ordering) -> Result<*mut A, *mut A>;
+        });
+    }
+}
-- 
2.43.0


From 1822f6d6588f8a3c2ac09ff65e79fac1790b9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:48 +0000
Subject: [PATCH 09/16] fix: a Mutable signal no longer misses a change or the
 last value when it is polled concurrently

---
 src/signal/mutable.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 25565a7..2c5b6a8 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -100,20 +100,30 @@ impl<A> MutableSignalState<A> {
     }
 
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        if !self.waker.is_changed() {
+            // The Waker must be in place before checking (again) whether anything happened,
+            // otherwise a change which happens in between wouldn't wake up anybody.
+            self.waker.set_waker(cx);
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            // This must be checked first, so that the value which was
+            // set before the last Mutable was dropped isn't lost.
+            let has_senders = self.state.senders.load(Ordering::SeqCst) != 0;
 
-        } else {
-            self.waker.set_waker(cx);
-            Poll::Pending
+            if !self.waker.is_changed() {
+                return if has_senders {
+                    Poll::Pending
+
+                } else {
+                    Poll::Ready(None)
+                };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From ee95f51c9a71bcc204c7532e8a73a2471b7d89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 10/16] fix: Mutable::swap cannot dead lock

---
 src/signal/mutable.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 2c5b6a8..5c96931 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -287,9 +287,23 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        let (first, second) = (self.state(), other.state());
+
+        // It's already swapped with itself, and it cannot be locked twice
+        if Arc::ptr_eq(first, second) {
+            first.lock.write().unwrap().notify(true);
+            return;
+        }
+
+        // Always locks in the same order, otherwise two concurrent swaps could dead lock
+        let (first, second) = if Arc::as_ptr(first) < Arc::as_ptr(second) {
+            (first, second)
+        } else {
+            (second, first)
+        };
+
+        let mut state1 = first.lock.write().unwrap();
+        let mut state2 = second.lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From 07c1bfc633438a6a24375940bacd8c6998852aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 11/16] fix: a channel Receiver no longer misses a value or the
 end when it is polled concurrently

---
 src/signal/channel.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 101043f..461cb9e 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -123,12 +123,23 @@ impl<A> Signal for Receiver<A> {
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+                // The Waker must be in place before checking (again) whether anything happened,
+                // otherwise something which happens in between wouldn't wake up anybody.
+                self.inner.waker.store(Some(cx.waker().clone()));
 
-                } else {
-                    Poll::Ready(None)
+                // This must be checked first, so that the value which was
+                // sent before the last Sender was dropped isn't lost.
+                let has_senders = self.inner.has_senders();
+
+                match self.inner.value.take() {
+                    None => if has_senders {
+                        Poll::Pending
+
+                    } else {
+                        Poll::Ready(None)
+                    },
+
+                    a => Poll::Ready(a),
                 }
             },
 
-- 
2.43.0


From 937d727378f99dd048a96ea43860684597373316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 12/16] fix: a closed channel stays closed when a Sender is
 cloned or dropped concurrently

---
 src/signal/channel.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 461cb9e..0dfbcc7 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,15 +22,32 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    /// Changes the number of senders, unless the channel was closed
+    ///
+    /// Returns the old number of senders
+    fn update_senders<F>(&self, f: F) -> usize where F: Fn(usize) -> usize {
+        let mut old = self.senders.load(Ordering::Acquire);
+
+        // It must stay closed, even if it is closed by another thread in the meantime
+        while old != 0 {
+            match self.senders.compare_exchange_weak(old, f(old), Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => break,
+                Err(current) => old = current,
+            }
+        }
+
+        old
+    }
+
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1) == 1
     }
 
     #[inline]
@@ -81,10 +98,7 @@ impl<A> Sender<A> {
 impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            inner.add_sender();
         }
 
         Self {
@@ -96,12 +110,9 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
-- 
2.43.0


From 5c2ec5c63d13346b647d82644a8aebdac96433c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:54 +0000
Subject: [PATCH 13/16] fix: sending to a channel fails once its Receiver was
 dropped

---
 src/signal/channel.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 0dfbcc7..000f15d 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -127,6 +127,15 @@ pub struct Receiver<A> {
 
 impl<A> Unpin for Receiver<A> {}
 
+impl<A> Drop for Receiver<A> {
+    #[inline]
+    fn drop(&mut self) {
+        // A Sender which is in use might keep the state alive for longer,
+        // but nobody can receive anything anymore.
+        self.inner.remove_all_senders();
+    }
+}
+
 impl<A> Signal for Receiver<A> {
     type Item = A;
 
-- 
2.43.0


From eef09618b037723d5d7a7638cce1c8ba0651aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 14/16] fix: Broadcaster no longer loses wake-ups

---
 src/signal/broadcaster.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index e9763da..9ffec5c 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -43,6 +43,10 @@ impl BroadcasterNotifier {
     }
 
     fn is_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
+    fn take_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
 }
@@ -129,7 +133,11 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
         if self.notifier.is_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must be reset while holding the lock, otherwise another
+            // child could see the old value and believe that it's up to date.
+            if self.notifier.take_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -188,6 +196,12 @@ impl<A> BroadcasterState<A> where A: Signal {
 
                 } else {
                     waker.set_waker(cx);
+
+                    // The notifier might have been woken up before the Waker was in place
+                    if shared_state.notifier.is_changed() {
+                        waker.wake(false);
+                    }
+
                     Poll::Pending
                 }
 
-- 
2.43.0


From da68d6fb4fc4cbfa2d6063c6bd85847b2b20ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 15/16] fix: CancelableFuture is woken when it is cancelled
 while it is polled

---
 src/future.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 1f2f6c6..fc16af5 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -59,23 +59,26 @@ impl<A, B> Future for CancelableFuture<A, B>
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
         // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while it was polled
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(cx.waker().clone());
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From 4315ac8e53a64286d8e973486f75f9fdc6aa4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:13 +0000
Subject: [PATCH 16/16] Verification hooks: constructors and conversions of the
 shims (cfg vp_hooks only)

---
 src/sync.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index f96feb2..36f09d2 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -77,10 +77,15 @@ pub(crate) mod hooked {
             pub(crate) struct $Lock<A>(std::sync::$Lock<A>);
 
             impl<A> $Lock<A> {
-                pub(crate) fn new(value: A) -> Self {
+                pub(crate) const fn new(value: A) -> Self {
                     $Lock(std::sync::$Lock::new(value))
                 }
 
+                #[allow(unused)]
+                pub(crate) fn clear_poison(&self) {
+                    self.0.clear_poison()
+                }
+
                 #[allow(unused)]
                 pub(crate) fn into_inner(self) -> LockResult<A> {
                     self.0.into_inner()
@@ -130,6 +135,12 @@ pub(crate) mod hooked {
                 }
             }
 
+            impl<A> From<A> for $Lock<A> {
+                fn from(value: A) -> Self {
+                    $Lock::new(value)
+                }
+            }
+
             impl<A> Default for $Lock<A> where A: Default {
                 fn default() -> Self {
                     $Lock::new(A::default())
@@ -190,7 +201,7 @@ pub(crate) mod hooked {
                 pub(crate) struct $Atomic$(<$generic>)?(std::sync::atomic::$Atomic$(<$generic>)?);
 
                 impl$(<$generic>)? $Atomic$(<$generic>)? {
-                    pub(crate) fn new(value: $Value) -> Self {
+                    pub(crate) const fn new(value: $Value) -> Self {
                         $Atomic(std::sync::atomic::$Atomic::new(value))
                     }
 
@@ -233,6 +244,18 @@ pub(crate) mod hooked {
                     }
                 }
 
+                impl$(<$generic>)? From<$Value> for $Atomic$(<$generic>)? {
+                    fn from(value: $Value) -> Self {
+                        $Atomic::new(value)
+                    }
+                }
+
+                impl$(<$generic>)? Default for $Atomic$(<$generic>)? {
+                    fn default() -> Self {
+                        $Atomic(Default::default())
+                    }
+                }
+
                 impl$(<$generic>)? fmt::Debug for $Atomic$(<$generic>)? {
                     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
                         self.0.fmt(fmt)
-- 
2.43.0

