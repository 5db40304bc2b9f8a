From a44b11490016579f00605e9277c8a469ed168e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:02 +0000
Subject: [PATCH 1/6] fix: report the position a racing push really got, and
 read the list head with acquire ordering

Another thread may append between finding the tail and linking the new node;
the length returned has to count those nodes too. The head load in tail() is
followed by reads through the pointer, so it has to be an acquire load.
---
 crates/utils/src/linked.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..74d4482 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -62,7 +62,7 @@ impl<T> UnsyncLinked<T> {
     }
 
     fn tail(&self) -> (*mut Node<T>, usize) {
-        let mut cur_node = self.head.load(Ordering::Relaxed);
+        let mut cur_node = self.head.load(Ordering::Acquire);
 
         if cur_node.is_null() {
             return (cur_node, 0);
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From 4347e5be17046005159e6d0f9100718f1fcd98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:52 +0000
Subject: [PATCH 2/6] fix: keep interned values and counts intact under
 concurrent use

Two threads could claim the same dead slot, a lookup could compare a value
while another thread overwrote it, a value found could be dropped and its slot
reused before the reference was taken, and a lookup stopped at the first dead
slot although the value was live further on. A panic while converting or
comparing left a slot counted as live without its value.

Only look at a value while holding a reference, and give a dead slot to one
writer at a time with a reserved count. Nobody waits for such a slot; both
states are undone on unwinding.
---
 crates/utils/src/intern.rs | 150 ++++++++++++++++++++++++++-----------
 1 file changed, 108 insertions(+), 42 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..5de66c1 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -8,6 +8,9 @@ use crate::static_assert;
 
 const CHUNK_SIZE: usize = 32;
 
+/// Reference count of a slot whose value is currently being written
+const BUSY: usize = usize::MAX;
+
 enum Find<T> {
     Exists(T),
     Dead(T),
@@ -47,6 +50,56 @@ impl<T> Interned<T> {
     unsafe fn set_val(&self, val: T) {
         *self.val.get() = Some(val);
     }
+
+    /// Take a reference, unless the slot is dead or being written
+    #[inline]
+    fn try_hold(&self) -> Option<Hold<'_, T>> {
+        self.refs
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| match val {
+                0 | BUSY => None,
+                _ => Some(val + 1),
+            })
+            .ok()
+            .map(|_| Hold(self))
+    }
+
+    /// Get exclusive access to a dead slot
+    #[inline]
+    fn try_claim(&self) -> Option<Claim<'_, T>> {
+        self.refs
+            .compare_exchange(0, BUSY, Ordering::AcqRel, Ordering::Acquire)
+            .ok()
+            .map(|_| Claim(self))
+    }
+}
+
+/// A reference to a live slot, given back on drop
+struct Hold<'a, T>(&'a Interned<T>);
+
+impl<T> Drop for Hold<'_, T> {
+    #[inline]
+    fn drop(&mut self) {
+        self.0.refs.fetch_sub(1, Ordering::AcqRel);
+    }
+}
+
+/// Exclusive access to a dead slot, which is dead again on drop
+struct Claim<'a, T>(&'a Interned<T>);
+
+impl<T> Claim<'_, T> {
+    /// Make the slot live, with a single reference
+    #[inline]
+    fn publish(self) {
+        self.0.refs.store(1, Ordering::Release);
+        mem::forget(self);
+    }
+}
+
+impl<T> Drop for Claim<'_, T> {
+    #[inline]
+    fn drop(&mut self) {
+        self.0.refs.store(0, Ordering::Release);
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
@@ -89,24 +142,32 @@ where
         Interner { inner: list }
     }
 
+    /// Look for a value. If it exists, a reference to it has been taken. A dead slot is only
+    /// reported if the value isn't live anywhere, and still has to be claimed.
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
     where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        let mut dead = None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
-                // This intentionally allows reviving dead slots - saves work if you're rapidly
-                // dropping and creating references to a value
-                let count = i.refs.load(Ordering::Acquire);
-                if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
-                    return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                // The value may only be looked at while holding a reference, otherwise the slot
+                // could die and be reused during the comparison
+                if let Some(hold) = i.try_hold() {
+                    if val == i.val().borrow() {
+                        mem::forget(hold);
+                        return Find::Exists((idx, idx2));
+                    }
+                } else if dead.is_none() && i.refs.load(Ordering::Acquire) == 0 {
+                    dead = Some((idx, idx2));
                 }
             }
         }
-        Find::None
+        match dead {
+            Some(loc) => Find::Dead(loc),
+            None => Find::None,
+        }
     }
 
     #[inline]
@@ -120,7 +181,11 @@ where
         let _ = interned
             .refs
             .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
-                val.checked_sub(1)
+                if val == BUSY {
+                    None
+                } else {
+                    val.checked_sub(1)
+                }
             });
     }
 
@@ -137,44 +202,42 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
-        let find = Self::find(&self.inner, val.borrow());
-        InternId::from_usize(match find {
-            Find::Exists((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                loc1 * 32 + loc2
-            }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
-            Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
-                unsafe { self.inner[loc1][loc2].set_val(val.into()) };
-                loc1 * 32 + loc2
-            }
-            Find::None => {
-                let len = self
-                    .inner
-                    .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
-                // SAFETY: Slot is empty, we're making it live, we are the only ones with access
-                unsafe { self.inner[len - 1][0].set_val(val.into()) };
-                (len - 1) * 32
+        loop {
+            let (loc1, loc2) = match Self::find(&self.inner, val.borrow()) {
+                Find::Exists((loc1, loc2)) => return InternId::from_usize(loc1 * 32 + loc2),
+                Find::Dead(loc) => loc,
+                Find::None => {
+                    let len = self
+                        .inner
+                        .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
+                    (len - 1, 0)
+                }
+            };
+            // Only one thread gets to write a dead slot. If another one was faster look again, it
+            // may even have added the same value.
+            let slot = &self.inner[loc1][loc2];
+            if let Some(claim) = slot.try_claim() {
+                // This intentionally allows reviving dead slots - saves work if you're rapidly
+                // dropping and creating references to a value
+                if !slot
+                    .val_opt()
+                    .is_some_and(|cur_val| val.borrow() == cur_val.borrow())
+                {
+                    // SAFETY: Slot is dead, we're making it live, we are the only ones with access
+                    unsafe { slot.set_val(val.into()) };
+                }
+                claim.publish();
+                return InternId::from_usize(loc1 * 32 + loc2);
             }
-        })
+        }
     }
 
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
-            None
-        } else {
-            Some(slot.val())
+        match slot.refs.load(Ordering::Acquire) {
+            0 | BUSY => None,
+            _ => Some(slot.val()),
         }
     }
 
@@ -195,7 +258,10 @@ where
     #[allow(dead_code)]
     pub fn refcount(&self, offset: InternId) -> usize {
         let (idx1, idx2) = Self::offset_to_idx(offset);
-        self.inner[idx1][idx2].refs.load(Ordering::Relaxed)
+        match self.inner[idx1][idx2].refs.load(Ordering::Relaxed) {
+            BUSY => 0,
+            refs => refs,
+        }
     }
 }
 
-- 
2.43.0


From 26bae236364b0ece4261d688d7e80bf133638391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:30 +0000
Subject: [PATCH 3/6] fix: drop the items a static array iterator did not hand
 out

Stopping early (any, all, try_fold, collecting into Option or Result), a
panicking closure, or dropping the iterator leaked every item not yet taken.
---
 crates/static-iter/src/array.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/static-iter/src/array.rs b/crates/static-iter/src/array.rs
index 351ff01..c224203 100644
--- a/crates/static-iter/src/array.rs
+++ b/crates/static-iter/src/array.rs
@@ -23,6 +23,8 @@ impl<'a, T, const N: usize> IntoStaticIter<N> for &'a [T; N] {
 
 pub struct IntoIter<T, const N: usize> {
     inner: [MaybeUninit<T>; N],
+    /// Index of the first item not handed out yet
+    next: usize,
 }
 
 impl<T, const N: usize> IntoIter<T, N> {
@@ -31,7 +33,7 @@ impl<T, const N: usize> IntoIter<T, N> {
         // SAFETY: `[MaybeUninit<T>; N]` and `[T; N]` have the same layout
         let inner = unsafe { core::mem::transmute_copy(&arr) };
         core::mem::forget(arr);
-        IntoIter { inner }
+        IntoIter { inner, next: 0 }
     }
 }
 
@@ -40,10 +42,19 @@ impl<T, const N: usize> StaticIter<N> for IntoIter<T, N> {
 
     #[inline]
     unsafe fn idx(&mut self, idx: usize) -> Self::Item {
+        self.next = idx + 1;
         core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()
     }
 }
 
+impl<T, const N: usize> Drop for IntoIter<T, N> {
+    fn drop(&mut self) {
+        let rest: *mut [MaybeUninit<T>] = &mut self.inner[self.next..];
+        // SAFETY: Items are handed out in order, so all from `next` on are still initialized
+        unsafe { core::ptr::drop_in_place(rest as *mut [T]) };
+    }
+}
+
 pub struct RefIter<'a, T, const N: usize> {
     inner: &'a [T; N],
 }
-- 
2.43.0


From 4b0bc2de871115991c5d263e890b54de018dd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:30 +0000
Subject: [PATCH 4/6] fix: drop the items already collected when collecting
 into Option or Result stops

The partially written array was a [MaybeUninit<T>; N], so its items leaked on
None, Err or a panic.
---
 crates/static-iter/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/static-iter/src/lib.rs b/crates/static-iter/src/lib.rs
index 94077b4..59d438e 100644
--- a/crates/static-iter/src/lib.rs
+++ b/crates/static-iter/src/lib.rs
@@ -2,8 +2,6 @@
 
 use adapter::{Enumerate, Map, Zip};
 use core::convert::Infallible;
-use core::mem;
-use core::mem::MaybeUninit;
 use core::ops::{Add, ControlFlow, Mul};
 use numeric_traits::identity::{One, Zero};
 
@@ -31,21 +29,21 @@ pub trait FromStaticIter<T, const N: usize>: Sized {
 }
 
 impl<T, const N: usize> FromStaticIter<T, N> for [T; N] {
-    type Uninit = [MaybeUninit<T>; N];
+    type Uninit = [Option<T>; N];
     type Break = Infallible;
 
     fn uninit() -> Self::Uninit {
-        [const { MaybeUninit::uninit() }; N]
+        [const { None }; N]
     }
 
     fn write(mut this: Self::Uninit, idx: usize, val: T) -> ControlFlow<Self::Break, Self::Uninit> {
-        this[idx].write(val);
+        this[idx] = Some(val);
         ControlFlow::Continue(this)
     }
 
     unsafe fn finish(this: ControlFlow<Self::Break, Self::Uninit>) -> Self {
         let ControlFlow::Continue(c) = this;
-        unsafe { mem::transmute_copy(&c) }
+        c.map(|val| unsafe { val.unwrap_unchecked() })
     }
 
     fn from_static_iter(mut iter: impl StaticIter<N, Item = T>) -> Self {
-- 
2.43.0


From 7ab1b6d582d11d9af9aab27c5b4b60b02a8de403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 5/6] hook: expose the growth list to the simulation harness
 under cfg(numeric_sim)

---
 crates/utils/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index fcc2e55..4ff93d3 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -1,4 +1,5 @@
 #![cfg_attr(not(test), no_std)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate alloc;
@@ -12,6 +13,11 @@ mod macros;
 #[cfg(feature = "std")]
 pub use intern::Interner;
 
+/// The growth list, for the simulation harness only
+#[cfg(all(feature = "std", numeric_sim))]
+#[doc(hidden)]
+pub use linked::UnsyncLinked as SimLinked;
+
 #[cfg(test)]
 pub(crate) mod tests {
     use std::thread;
-- 
2.43.0


From 729779c100f16425847417405adb8816a27899b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:08 +0000
Subject: [PATCH 6/6] fix: a lookup's temporary protection of a slot must not
 count as a reference

While one thread compared a value, its temporary hold kept a released slot
alive: another lookup could hand the id out again beside its live
duplicate, and a surplus release could take the hold itself away, so that
the slot was reused under the comparison. Count such protection apart from
the references.
---
 crates/utils/src/intern.rs | 71 +++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 5de66c1..af07e07 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -8,7 +8,14 @@ use crate::static_assert;
 
 const CHUNK_SIZE: usize = 32;
 
-/// Reference count of a slot whose value is currently being written
+/// Mask of the bits of a slot's state that count references (51 of 64, or 27 of 32)
+const REFS: usize = usize::MAX >> (usize::BITS / 4 - 3);
+
+/// One lookup comparing the value of a slot. Counted in the bits above the references, as it keeps
+/// the slot from being reused, but doesn't make it live
+const PIN: usize = REFS + 1;
+
+/// State of a slot whose value is currently being written
 const BUSY: usize = usize::MAX;
 
 enum Find<T> {
@@ -51,16 +58,19 @@ impl<T> Interned<T> {
         *self.val.get() = Some(val);
     }
 
-    /// Take a reference, unless the slot is dead or being written
+    /// Keep the slot from being reused, unless it is dead or being written
     #[inline]
-    fn try_hold(&self) -> Option<Hold<'_, T>> {
+    fn try_pin(&self) -> Option<Pin<'_, T>> {
         self.refs
-            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| match val {
-                0 | BUSY => None,
-                _ => Some(val + 1),
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
+                if val & REFS == 0 || val >= BUSY - REFS {
+                    None
+                } else {
+                    Some(val + PIN)
+                }
             })
             .ok()
-            .map(|_| Hold(self))
+            .map(|_| Pin(self))
     }
 
     /// Get exclusive access to a dead slot
@@ -73,13 +83,32 @@ impl<T> Interned<T> {
     }
 }
 
-/// A reference to a live slot, given back on drop
-struct Hold<'a, T>(&'a Interned<T>);
+/// Protection of a slot against reuse
+struct Pin<'a, T>(&'a Interned<T>);
+
+impl<T> Pin<'_, T> {
+    /// Turn this into a reference. Fails if the slot has died since it was pinned
+    #[inline]
+    fn try_hold(self) -> bool {
+        let held = self
+            .0
+            .refs
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| match val & REFS {
+                0 => None,
+                _ => Some(val - PIN + 1),
+            })
+            .is_ok();
+        if held {
+            mem::forget(self);
+        }
+        held
+    }
+}
 
-impl<T> Drop for Hold<'_, T> {
+impl<T> Drop for Pin<'_, T> {
     #[inline]
     fn drop(&mut self) {
-        self.0.refs.fetch_sub(1, Ordering::AcqRel);
+        self.0.refs.fetch_sub(PIN, Ordering::AcqRel);
     }
 }
 
@@ -152,11 +181,10 @@ where
         let mut dead = None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
-                // The value may only be looked at while holding a reference, otherwise the slot
-                // could die and be reused during the comparison
-                if let Some(hold) = i.try_hold() {
-                    if val == i.val().borrow() {
-                        mem::forget(hold);
+                // The value may only be looked at while pinned, otherwise the slot could die and be
+                // reused during the comparison
+                if let Some(pin) = i.try_pin() {
+                    if val == i.val().borrow() && pin.try_hold() {
                         return Find::Exists((idx, idx2));
                     }
                 } else if dead.is_none() && i.refs.load(Ordering::Acquire) == 0 {
@@ -173,7 +201,7 @@ where
     #[inline]
     fn incr_inner(interned: &Interned<T>) {
         let val = interned.refs.fetch_add(1, Ordering::AcqRel);
-        debug_assert_ne!(val, usize::MAX, "Too many instances of a single value!");
+        debug_assert_ne!(val & REFS, REFS, "Too many instances of a single value!");
     }
 
     #[inline]
@@ -181,10 +209,10 @@ where
         let _ = interned
             .refs
             .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
-                if val == BUSY {
+                if val == BUSY || val & REFS == 0 {
                     None
                 } else {
-                    val.checked_sub(1)
+                    Some(val - 1)
                 }
             });
     }
@@ -236,7 +264,8 @@ where
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
         match slot.refs.load(Ordering::Acquire) {
-            0 | BUSY => None,
+            BUSY => None,
+            refs if refs & REFS == 0 => None,
             _ => Some(slot.val()),
         }
     }
@@ -260,7 +289,7 @@ where
         let (idx1, idx2) = Self::offset_to_idx(offset);
         match self.inner[idx1][idx2].refs.load(Ordering::Relaxed) {
             BUSY => 0,
-            refs => refs,
+            refs => refs & REFS,
         }
     }
 }
-- 
2.43.0

