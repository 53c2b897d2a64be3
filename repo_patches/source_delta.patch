From 904ce45630b60afc604391414e16f61ac47ba65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 01/44] fix: ScopePtr::alloc must not drop the uninitialized
 memory it writes to

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..e713ef3 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: memory is fresh and fits the value. There is no previous value in it that
+        // could be dropped by an assignment.
+        unsafe { ptr.ptr.as_ptr().write(value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From 45eee243126bfb262f5135697f9f980349ba6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 02/44] fix: ScopePtr::into_inner must not drop the moved out
 value and free memory twice

---
 src/ptr.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index e713ef3..fe1d5e2 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, size_of, transmute, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -201,10 +201,12 @@ impl<T> ScopePtr<T> {
     }
 
     /// Read out the accessed value and deallocate the memory.
-    pub fn into_inner(mut self) -> T {
+    pub fn into_inner(self) -> T {
+        // Value is moved out and memory is freed here, so normal Drop should not run.
+        let mut this = ManuallyDrop::new(self);
         unsafe {
-            let v = ptr::read(self.ptr.as_ptr());
-            self.dealloc();
+            let v = ptr::read(this.ptr.as_ptr());
+            this.dealloc();
             v
         }
     }
-- 
2.43.0


From c42ad6c7e7acb377ce69263223c4cded55dc97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 03/44] fix: do not call allocators with zero or overflowed
 sizes

---
 src/ptr.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index fe1d5e2..4a98921 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute, ManuallyDrop};
+use core::mem::{self, transmute, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -189,6 +189,11 @@ impl<T> ScopePtr<T> {
     /// Allocate memory using given `Layout` and `AllocQuery`.
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
+        if layout.size() == 0 {
+            // Allocators must not be called for zero-sized layouts.
+            // SAFETY: no memory is required for the access to be valid.
+            return Ok(unsafe { Self::dangling(alloc, selector.marker()) });
+        }
         trace!("alloc with {:?}", &layout);
         let mem = unsafe { alloc.alloc(layout) as *mut T };
         if let Some(ptr) = NonNull::new(mem) {
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // Nothing was allocated for zero-sized values.
+        if layout.size() > 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
@@ -273,12 +281,19 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
-        );
+        let new_layout = Layout::array::<T>(new_capacity).map_err(|_| CapacityOverflow)?;
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let old_layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+        let ptr = if new_layout.size() == 0 {
+            // Allocators must not be called for zero-sized layouts.
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if old_layout.size() == 0 {
+            self.alloc.alloc(new_layout)
+        } else {
+            self.alloc
+                .realloc(self.ptr.as_ptr() as _, old_layout, new_layout.size())
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From 20a2a88d83659911c372b94f5d8f69dd5f789d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 04/44] fix: ScopePtr::alloc_array_uninit exposes uninitialized
 values and must be unsafe

---
 src/ptr.rs | 6 +++++-
 src/vec.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 4a98921..f6a5f09 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -260,7 +260,11 @@ impl<T: ?Sized> ScopePtr<T> {
 impl<T> ScopePtr<[T]> {
     /// Allocate uninitialized array. Given query will be used
     /// to select appropriate allocator.
-    pub fn alloc_array_uninit(
+    ///
+    /// # Safety
+    /// Values of the array should not be read before being written, including by Drop of the
+    /// returned access.
+    pub unsafe fn alloc_array_uninit(
         capacity: usize,
         selector: AllocSelector,
     ) -> Result<Self, ArrayAllocError> {
diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..d5fb0b4 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -76,8 +76,12 @@ impl<T: 'static> Vec<T> {
                 capacity
             );
             let selector = AllocSelector::with_marker::<T>(marker);
-            let ptr = ManuallyDrop::new(ScopePtr::alloc_array_uninit(capacity, selector)?);
-            Ok(Vec { ptr, len: 0 })
+            // SAFETY: only first `len` values are ever accessed.
+            let ptr = unsafe { ScopePtr::alloc_array_uninit(capacity, selector)? };
+            Ok(Vec {
+                ptr: ManuallyDrop::new(ptr),
+                len: 0,
+            })
         }
     }
 
-- 
2.43.0


From 0aed2f1ed1109abab24d6fd59136c51fb5537aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 05/44] fix: Env::spawn must install a reference to the new
 scope, not bytes of the scope itself

---
 src/scope.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..990350d 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,6 +1,6 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
-use core::mem::transmute_copy;
+use core::mem::{transmute, transmute_copy};
 use std::any::type_name;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -138,7 +138,9 @@ impl Env {
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            self.cur = ScopedMut::unsafe_from(transmute::<&mut dyn Scope, &mut (dyn Scope + 'static)>(
+                &mut new_scope,
+            ));
 
             let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
-- 
2.43.0


From cb4c23d7b9d627b051fd91a9b07b266929ea095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 06/44] fix: Env::spawn must restore the previous scope when
 the function panics

---
 src/scope.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 990350d..4f2c43d 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -108,6 +108,20 @@ impl AllocSelector {
     }
 }
 
+/// Makes previous scope current again when execution in the new scope ends, including by panic.
+struct RestoreScope<'a> {
+    env: &'a mut Env,
+    prev: &'a mut (dyn Scope + 'static),
+}
+
+impl Drop for RestoreScope<'_> {
+    fn drop(&mut self) {
+        // SAFETY: we will give up execution to previous scope so restore previous
+        // scope's lifetime by unsafe_into.
+        self.env.cur = unsafe { impose_lifetime_mut(self.prev).unsafe_into() };
+    }
+}
+
 /// Scope encapsulates a group of allocators and variables for some piece of code. It
 /// guarantees that all those variables and allocated objects will be valid during
 /// scope lifetime.
@@ -137,16 +151,13 @@ impl Env {
             // SAFETY: we definitely know the lifetime will be valid during scope execution.
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
+            let restore = RestoreScope { env: self, prev };
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute::<&mut dyn Scope, &mut (dyn Scope + 'static)>(
+            restore.env.cur = ScopedMut::unsafe_from(transmute::<&mut dyn Scope, &mut (dyn Scope + 'static)>(
                 &mut new_scope,
             ));
 
-            let t = f(&mut new_scope);
-            // SAFETY: we will give up execution to previous scope so restore previous
-            // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            f(&mut new_scope)
         }
     }
 
-- 
2.43.0


From 79203f0e90432aa83f5788d0d9c0ff43da180de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 07/44] fix: compare alloc markers and selectors by type name,
 its address differs between crates

---
 src/scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4f2c43d..a7f3b21 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -27,8 +27,8 @@ pub enum AllocMarker {
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
     // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // The strings themselves are compared as the same type gets its name stored at different
+    // addresses in different crates.
     Type(&'static str),
 }
 
@@ -36,7 +36,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -46,7 +46,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -69,14 +69,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From f332445aa47aad425256918ca64838bc8e7a5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 08/44] fix: no_std feature must not require std

---
 src/scope.rs | 10 +++++-----
 src/urc.rs   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index a7f3b21..9fd4fb3 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,9 +1,9 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
 use core::mem::{transmute, transmute_copy};
-use std::any::type_name;
-use std::hash::Hash;
-use std::marker::PhantomData;
+use core::any::type_name;
+use core::hash::Hash;
+use core::marker::PhantomData;
 
 /// Function to resolve Env for current application. It should be initialized before using
 /// scopes and types that rely on scope information.
@@ -43,7 +43,7 @@ impl PartialEq for AllocMarker {
 }
 
 impl Hash for AllocMarker {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
             AllocMarker::Type(ty) => ty.hash(state),
@@ -74,7 +74,7 @@ impl PartialEq for AllocSelector {
 }
 
 impl Hash for AllocSelector {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
         self.ty.hash(state);
     }
diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..443ce76 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -23,7 +23,7 @@ use core::ptr::drop_in_place;
 use core::sync::atomic::AtomicUsize;
 use core::sync::atomic::Ordering::{Acquire, Relaxed, Release};
 use core::{fmt, mem, ptr};
-use std::panic::{RefUnwindSafe, UnwindSafe};
+use core::panic::{RefUnwindSafe, UnwindSafe};
 use crate::test_log::trace;
 
 // TODO update this docs, it seems we wont share Fence directly, instead use Envelopes!!!
-- 
2.43.0


From 325e2acb2eb842679e409c256b1e8d4bc3cd18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 09/44] fix: String::as_mut_vec allows to store invalid UTF-8
 and must be unsafe

---
 src/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..67872da 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -105,8 +105,10 @@ impl String {
         &self.vec
     }
 
+    /// # Safety
+    /// The bytes should be valid UTF-8 when the borrow of the vector ends.
     #[inline]
-    pub fn as_mut_vec(&mut self) -> &mut Vec<u8> {
+    pub unsafe fn as_mut_vec(&mut self) -> &mut Vec<u8> {
         &mut self.vec
     }
 
-- 
2.43.0


From 6593d1ba16c39073c7d6554299647c967efea4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 10/44] fix: String must not assume uninitialized bytes to be
 initialized

---
 src/string.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 67872da..71075e3 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1,5 +1,5 @@
 use core::slice;
-use core::{char::decode_utf16, convert::Infallible, mem::MaybeUninit, ptr, str::Utf8Error};
+use core::{char::decode_utf16, convert::Infallible, ptr, str::Utf8Error};
 
 use crate::{
     scope::AllocMarker,
@@ -128,7 +128,7 @@ impl String {
             1 => self.vec.push(ch as u8),
             _ => self
                 .vec
-                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),
+                .extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),
         }
     }
 
@@ -174,7 +174,7 @@ impl String {
     pub fn insert(&mut self, idx: usize, ch: char) {
         assert!(self.is_char_boundary(idx));
 
-        let mut bits = unsafe { uninit_bits() };
+        let mut bits = [0; 4];
         let bits = ch.encode_utf8(&mut bits).as_bytes();
         unsafe { self.insert_bytes(idx, bits) };
     }
@@ -413,7 +413,7 @@ impl core::fmt::Debug for String {
 
 impl From<char> for String {
     fn from(ch: char) -> Self {
-        let mut bytes = unsafe { uninit_bits() };
+        let mut bytes = [0; 4];
         let bytes = ch.encode_utf8(&mut bytes).as_bytes();
         let vec = Vec::from(bytes);
         String { vec }
@@ -658,9 +658,3 @@ impl core::fmt::Write for String {
         Ok(())
     }
 }
-
-unsafe fn uninit_bits() -> [u8; 4] {
-    MaybeUninit::<[MaybeUninit<u8>; 4]>::uninit()
-        .assume_init()
-        .map(|v| v.assume_init())
-}
-- 
2.43.0


From 068472c84050a280709d33dcc55ef908885bb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 11/44] fix: Debug of String must format as Debug of str

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 71075e3..64012c9 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -407,7 +407,7 @@ impl core::fmt::Display for String {
 impl core::fmt::Debug for String {
     #[inline]
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
-        core::fmt::Display::fmt(&**self, f)
+        core::fmt::Debug::fmt(&**self, f)
     }
 }
 
-- 
2.43.0


From 44db2e2e268072853f15089e56ec9455c7f56354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 12/44] fix: Vec::with_marker must keep the marker for future
 allocations

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index d5fb0b4..1c75abe 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From b713fb370f45db2becd69c6ce7e40432d25089e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 13/44] fix: Vec::clear must not drop elements twice when a
 destructor panics

---
 src/vec.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 1c75abe..e8af28c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -272,15 +272,9 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        // This drops elements only after they are no longer accessible by the length, so none
+        // would be dropped again if some destructor panics.
+        self.truncate(0);
     }
 
     #[inline]
-- 
2.43.0


From c7cfc56610550fb60f558d54beef259bb4ea9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 14/44] fix: Vec::leak must not drop the vector it leaks

---
 src/vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index e8af28c..3005d51 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -309,10 +309,11 @@ impl<T: 'static> Vec<T> {
     }
 
     #[inline]
-    pub fn leak(mut self) -> &'static mut [T] {
+    pub fn leak(self) -> &'static mut [T] {
+        let mut this = ManuallyDrop::new(self);
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        unsafe { impose_lifetime_mut(this.as_mut_slice()) }
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From bb6ca9a08d505f3aeff276f57c80556b5e874273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 15/44] fix: Vec::dealloc_without_drop must not run Drop of the
 vector

---
 src/vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec.rs b/src/vec.rs
index 3005d51..7837650 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -320,6 +320,8 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        // Avoid normal Drop of Vec.
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From 6ed0ce0950e704f54c326e90bf3882be6dc5d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 16/44] fix: Vec::swap_remove of the last element must not use
 non-overlapping copy

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 7837650..868a99d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -371,10 +371,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are the same if the last element gets removed.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From 4d83315a83d91d186b70cd145de372d3611e09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 17/44] fix: Vec::split_off must update lengths of both vectors

---
 src/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 868a99d..a81b1c6 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -406,7 +406,12 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            // SAFETY: elements are moved from one vector to the other.
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                self.set_len(at);
+                vec.set_len(count);
+            }
             vec
         }
     }
-- 
2.43.0


From f01ab8d08cd1820bb94f66b69c0d909282dcadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 18/44] fix: Drain must check its range, yield from it only and
 keep elements after it

---
 src/vec.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index a81b1c6..87dab47 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -538,13 +538,16 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        assert!(start <= end && end <= original_len);
+
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
@@ -555,8 +558,9 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
             vec_ptr: vec,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            // SAFETY: the range was checked to be inside the original length.
+            slice: unsafe { &vec.as_slice_with_len(original_len)[start..end] },
+            original_len,
         }
     }
 
@@ -576,13 +580,12 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
-            let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            let base = vec.as_slice_with_len_mut(self.original_len).as_mut_ptr();
+            let tail_len = self.original_len - self.end;
+            ptr::copy(base.add(self.end), base.add(self.start), tail_len);
 
             // Restore valid length of Vec.
-            vec.set_len(self.original_len - count);
+            vec.set_len(self.start + tail_len);
         }
     }
 }
@@ -613,7 +616,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From 365f2916176a58a852b3f5d771fcd5ad3bce9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 19/44] fix: retain and dedup must not skip the second element

---
 src/vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 87dab47..2dbb4f3 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -739,7 +739,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -794,7 +794,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 
     /// Retain read element and move to next.
     fn keep_next(&mut self) {
-        unsafe { self.copy() };
+        if self.read != self.write {
+            unsafe { self.copy() };
+        }
         unsafe { self.increment_vec_len() };
         self.read += 1;
         self.write += 1;
-- 
2.43.0


From 026df5c5b4f688e8e64ec29410a01a88ab197698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 20/44] fix: dedup_by must compare with the retained element,
 not with its moved out copy

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2dbb4f3..e9c3039 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -831,7 +831,8 @@ impl<'a, T: 'static> RetainIter<'a, T> {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
+                // Element was moved to its new place.
+                keeped = unsafe { iter.get_unchecked_mut(iter.write - 1) };
             }
         }
     }
-- 
2.43.0


From 202b556aaf5e97536157ca61cb26709eabc69e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 21/44] fix: Vec::from slice must not panic on non-empty slices

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index e9c3039..dd1758f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1004,7 +1004,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From be3412edd981fb342e15d10b069fb9a04b5b04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 22/44] fix: vec::IntoIter must account for already yielded
 elements

---
 src/vec.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index dd1758f..2b5090f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1107,13 +1107,18 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
@@ -1145,7 +1150,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.vec.len() - self.index;
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1153,7 +1158,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.vec.len() - self.index;
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From c351fe9e5c0ffd5772959321ef5dabc21d302d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 23/44] fix: Vec::into_boxed_slice must keep the length of
 zero-sized elements

---
 src/vec.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2b5090f..ae62664 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -248,9 +248,6 @@ impl<T: 'static> Vec<T> {
         // This is ensured by the calling contexts.
         debug_assert!(self.capacity() > capacity);
         debug_assert!(self.len <= capacity);
-        if size_of::<T>() == 0 {
-            return Ok(());
-        }
 
         unsafe { self.ptr.realloc_array(capacity) }
     }
-- 
2.43.0


From 02dc0f14ca40efd0aaae317e07731aab73b36d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 24/44] fix: SmallVec::truncate must drop the elements it cuts
 off

---
 src/small_vec.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..3eb1bc4 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,12 +250,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
-                unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
-                    drop_in_place(to_drop);
-                }
-            }
+            unsafe { drop_in_place(&mut self.as_slice_with_len_mut(old_len)[len..]) };
         }
     }
 
-- 
2.43.0


From 90e9cb658b14dcf4c6c49fa1045f07eae2749727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 25/44] fix: SmallVec::insert must check the index for stack
 storage

---
 src/small_vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3eb1bc4..3a1d430 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -196,7 +196,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
         debug_assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        let write: *mut T = self.as_mut_ptr().add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
@@ -573,6 +573,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn insert(&mut self, index: usize, value: T) {
+        assert!(index <= self.len());
+
         // Ensure we can store one more element. This will move to heap if stack is full.
         self.reserve(1);
 
-- 
2.43.0


From 3d9e9aeeccd3953739be48f9e86033d4774d9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 26/44] fix: SmallVec::remove must not read after the last
 element

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3a1d430..e20df22 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -219,7 +219,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From 2b8c3d5f2224a3a86470cbb83f2e8e606b942ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 27/44] fix: SmallVec::swap_remove of the last element must not
 use non-overlapping copy

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e20df22..d8c602c 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -264,7 +264,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
 
             // Copy last element in place of removed one.
             let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
-- 
2.43.0


From 5b424ec0fc0603f66ef15eb1a7957e00f2603b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 28/44] fix: SmallVec::resize and resize_with must move to heap
 when new length requires it

---
 src/small_vec.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index d8c602c..fded90a 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -369,7 +369,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -399,10 +398,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
-        }
+        // Move to heap if required to be able to store all new elements.
+        self.reserve_exact(len.saturating_sub(self.len()));
 
         use Storage::*;
         match &mut self.storage {
@@ -411,6 +408,18 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        // Move to heap if required to be able to store all new elements.
+        self.reserve_exact(len.saturating_sub(self.len()));
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From 974cae49b487a3425b1eb79b2021c095367e41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 29/44] fix: SmallVec::from array must set the length

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index fded90a..8cf12a3 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -948,7 +948,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     &slice as *const MaybeUninit<T>,
                     &mut vec.slice as *mut MaybeUninit<T>,
                     L,
-                )
+                );
+                vec.set_len(L);
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-- 
2.43.0


From 0e40cce675112d20276ba717017c3aec6e9149e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 30/44] fix: SmallVec::split_off must accept the position at
 the end

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 8cf12a3..c039a46 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -632,11 +632,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
-            copy_nonoverlapping(slice, into.as_mut_ptr(), count);
+            copy_nonoverlapping(self.as_ptr().add(at), into.as_mut_ptr(), count);
             self.set_len(self.len() - count);
             into.set_len(count);
         }
-- 
2.43.0


From 241f0fee209393d9193795d4c62a72573e0751bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 31/44] fix: SmallVec must check for overflow the capacity it
 moves to heap with

---
 src/small_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c039a46..33fefb3 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -447,7 +447,10 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = usize::max(
+                    old_vec.len().overflow_guarded_add(additional),
+                    Vec::<T>::MIN_NON_ZERO_CAP,
+                );
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
-- 
2.43.0


From e23a9e7527b2145615050d8098219c14f8d30d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 32/44] fix: SmallVec::try_reserve must not move to heap while
 elements fit the stack

---
 src/small_vec.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 33fefb3..21a696c 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -487,11 +487,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let new_capacity = self.capacity().overflow_guarded_add(additional);
-        let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
-
-        let reserve = new_capacity - self.capacity();
-        self.try_reserve_exact(reserve)
+        use Storage::*;
+        match &mut self.storage {
+            Stack(_) => self.try_reserve_exact(additional),
+            Heap(vec) => vec.try_reserve(additional),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 5559a5d0ac851fd11e7ae0ebf2e201e32e772c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 33/44] fix: SmallVec::try_move_to_heap_and_reserve_exact must
 return allocation errors

---
 src/small_vec.rs | 2 +-
 src/vec.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 21a696c..bf7769c 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -465,7 +465,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
diff --git a/src/vec.rs b/src/vec.rs
index ae62664..015ffec 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -876,7 +876,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From 0003c1c3806cb3a80c94e27892d639987f5bb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 34/44] fix: Rc must drop its value with the last Rc and free
 memory with the last reference

---
 src/rc.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..04c08a1 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,16 +160,11 @@ impl Rc<dyn core::any::Any + 'static> {
 
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
-        if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
-        } else {
-            self.inner().dec_strong();
-        }
-
-        if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
-            // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+        if self.inner().dec_strong() == 1 {
+            // This was the last `Rc` so drop the value. Weak reference keeps RcBox allocated for
+            // that time and then frees it if nothing else refers to it.
+            let _block = Rc::downgrade(self);
+            unsafe { drop_in_place(self.as_mut()) }
         }
     }
 }
@@ -345,10 +340,9 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if let Some(v) = self.inner() {
             let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
-                }
+            if weak == 1 && self.strong_count() == 0 {
+                // Nothing refers to RcBox now so free it. The value is already dropped.
+                unsafe { ManuallyDrop::drop(self.0.as_mut().unwrap()) }
             }
         }
     }
-- 
2.43.0


From 7dbcef0dfe77da993c1d4059b1a23cb15077d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 35/44] fix: Rc::try_unwrap must release the block and must not
 leave the value to weak references

---
 src/rc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rc.rs b/src/rc.rs
index 04c08a1..2e59608 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -120,7 +120,12 @@ impl<T: 'static> Rc<T> {
 
     pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
+            let this = ManuallyDrop::new(this);
             let val = unsafe { ptr::read(&this.0.val) };
+            // RcBox does not own the value no more. Weak reference frees it if nothing else
+            // refers to it.
+            this.inner().set_zero_strong();
+            drop(Rc::downgrade(&this));
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From 9471b03c1e8c84ebda498927edc34c90869beab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 36/44] fix: Rc::make_mut must not destroy the value it moves
 from weak references

---
 src/rc.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 2e59608..9742b13 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -6,7 +6,7 @@ use core::cell::Cell;
 use core::cmp::Ordering;
 use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
-use core::mem::ManuallyDrop;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ptr::drop_in_place;
 use core::{fmt, ptr};
 
@@ -138,12 +138,19 @@ impl<T: 'static> Rc<T> {
     {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
-                // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
-                // Set strong to zero to indicate this RcBox does not own any data no more.
+                // Disassociate weak pointers from the data. Allocate at first as this may fail.
+                let block = MaybeUninit::<RcBox<T>>::uninit();
+                let mut block = ScopePtr::alloc(block, AllocSelector::new::<T>()).unwrap();
+                block.write(RcBox {
+                    strong: Cell::new(1),
+                    weak: Cell::new(0),
+                    val: unsafe { ptr::read(&this.0.val) },
+                });
+                // Set strong to zero to indicate this RcBox does not own any data no more. It
+                // will be freed by weak pointers.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                this.0 = ManuallyDrop::new(unsafe { block.cast() });
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From 748a876e8157ce2195c224aa49ac579ed0490b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 37/44] fix: Rc::downcast must not release the reference it
 returns

---
 src/rc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 9742b13..54887e6 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -163,7 +163,8 @@ impl<T: 'static> Rc<T> {
 impl Rc<dyn core::any::Any + 'static> {
     pub fn downcast<T: core::any::Any>(self) -> Result<Rc<T>, Self> {
         if (*self).is::<T>() {
-            unsafe { Ok(Rc(ManuallyDrop::new(self.0.clone().cast()))) }
+            let this = ManuallyDrop::new(self);
+            unsafe { Ok(Rc(ManuallyDrop::new((*this.0).clone().cast()))) }
         } else {
             Err(self)
         }
-- 
2.43.0


From 472aec948cbe0466efac8e1a88c40fe13fe1d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 38/44] fix: Arc::downgrade must retry with the current weak
 count

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..a9e207c 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From 83d42b62a255bb4a24fc2d062c8dcdfa53403f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 39/44] fix: memory of Arc must be freed with the last
 reference of both kinds

---
 src/arc.rs | 80 ++++++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 41 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index a9e207c..0b54b1d 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All strong references together hold one weak reference, so ArcInner is freed
+    // when this comes to zero.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -35,6 +37,16 @@ pub struct Weak<T: ?Sized>(ManuallyDrop<ScopePtr<ArcInner<T>>>);
 unsafe impl<T: ?Sized + Sync + Send> Send for Weak<T> {}
 unsafe impl<T: ?Sized + Sync + Send> Sync for Weak<T> {}
 
+impl<T: ?Sized> Drop for Weak<T> {
+    fn drop(&mut self) {
+        // The same logic as in `Drop` of `Arc`.
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+        }
+    }
+}
+
 impl<T: ?Sized> ArcInner<T> {
     #[inline]
     fn load_weak(&self, order: Ordering) -> AtomicCounter {
@@ -140,7 +152,7 @@ impl<T: 'static> Arc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
@@ -173,42 +185,32 @@ impl<T: 'static> Arc<T> {
     where
         T: Clone,
     {
-        let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let strong = this.inner().load_strong(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
-                let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
+                // Allocate new ArcInner at first as this may fail.
+                let inner = MaybeUninit::<ArcInner<T>>::uninit();
+                let mut inner = ScopePtr::alloc(inner, AllocSelector::new::<T>()).unwrap();
+                inner.write(ArcInner {
+                    strong: AtomicUsize::new(1),
+                    weak: AtomicUsize::new(1),
+                    data: unsafe { ptr::read(&this.0.data) },
+                });
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
-                match strong.try_set_zero(Acquire) {
-                    Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
-                    }
-                    Err(_) => {
-                        // Probably, `Arc` was cloned before we have disassociated.
-                        // Need to create a new Arc instead without decrementing and clone the
-                        // data.
-                        let clone = this.as_ref().clone();
-                        *this = Arc::new(clone);
-                    }
-                }
+                this.inner().strong.store(0, Release);
+                // Release the weak reference held by this Arc. The last Weak will deallocate
+                // ArcInner.
+                let inner = ManuallyDrop::new(unsafe { inner.cast() });
+                drop(Weak(mem::replace(&mut this.0, inner)));
             }
         } else {
             // There are several `strong`s so just clone the data and create a new Arc.
@@ -221,7 +223,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -236,10 +238,8 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // Release the weak reference held by this Arc.
+            drop(Weak(ManuallyDrop::new(this.0.clone())));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -271,8 +271,8 @@ impl<T: ?Sized> Arc<T> {
     pub fn weak_count(this: &Self) -> usize {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
-        // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        // count was 1 just before taking the lock.
+        cnt.get().unwrap_or(1) - 1
     }
 
     #[inline]
@@ -322,7 +322,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -333,7 +333,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -348,14 +348,12 @@ impl<T: ?Sized> Arc<T> {
     // Non-inlined part of `drop`.
     #[inline(never)]
     unsafe fn drop_slow(&mut self) {
+        // Release the weak reference held by Arc after the data is destroyed.
+        let _weak = Weak(ManuallyDrop::new(self.0.clone()));
+
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
-
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
     }
 }
 
-- 
2.43.0


From c7b8788a6c79357130683ba24a4dc61a93adc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 40/44] fix: Fence may be sent to other threads only if its
 data may be shared with them

---
 src/urc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urc.rs b/src/urc.rs
index 443ce76..2abef29 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -41,7 +41,7 @@ pub struct Fence<T: ?Sized> {
     master: ManuallyDrop<ScopePtr<Master<T>>>,
 }
 
-unsafe impl<T: ?Sized> Send for Fence<T> {}
+unsafe impl<T: ?Sized + Sync + Send> Send for Fence<T> {}
 
 impl<T: ?Sized> Fence<T> {
     #[inline]
-- 
2.43.0


From 4d81f1ca3a5220559620ead35991e60077a0b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 41/44] fix: Urc must drop its data with the last Urc and free
 memory with the last reference

---
 src/arc.rs |  27 -----
 src/urc.rs | 283 +++++++++++++++++++++++------------------------------
 2 files changed, 120 insertions(+), 190 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 0b54b1d..432c579 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -82,19 +82,6 @@ impl<'a> AtomicCounter<'a> {
         }
     }
 
-    #[inline]
-    pub(crate) fn increment(&mut self, order: Ordering) -> usize {
-        loop {
-            match self.try_increment(order) {
-                Ok(val) => return val,
-                Err(val) => {
-                    self.val = val;
-                    hint::spin_loop();
-                }
-            }
-        }
-    }
-
     #[inline]
     pub(crate) fn try_increment(&mut self, order: Ordering) -> Result<usize, usize> {
         // TODO: this code currently ignores the possibility of overflow
@@ -106,20 +93,6 @@ impl<'a> AtomicCounter<'a> {
             .compare_exchange_weak(current, new, order, Relaxed)
     }
 
-    #[inline]
-    pub(crate) fn try_decrement(&mut self, order: Ordering) -> Result<usize, usize> {
-        debug_assert!(self.val > 0);
-        self.inner
-            .compare_exchange_weak(self.val, self.val - 1, order, Relaxed)
-    }
-
-    #[inline]
-    pub(crate) fn try_set_zero(&mut self, order: Ordering) -> Result<usize, usize> {
-        debug_assert!(self.val > 0);
-        self.inner
-            .compare_exchange_weak(self.val, 0, order, Relaxed)
-    }
-
     /// Whether the counter was locked when last read.
     #[inline]
     pub(crate) fn is_locked(&self) -> bool {
diff --git a/src/urc.rs b/src/urc.rs
index 2abef29..d7d7694 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,7 +10,6 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
 use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
@@ -91,6 +90,44 @@ impl<T: ?Sized> Fence<T> {
     }
 }
 
+impl<T: ?Sized> Fence<T> {
+    /// Create `Fence` that only releases weak reference of the `Master` when dropped.
+    fn weak_of(master: ManuallyDrop<ScopePtr<Master<T>>>) -> Self {
+        Fence {
+            strong: 0.into(),
+            weak: 0.into(),
+            master,
+        }
+    }
+
+    /// Release strong reference of the `Master`. This destroys the data if it was the last one.
+    ///
+    /// # Safety
+    /// The strong reference that gets released should not be used afterwards.
+    unsafe fn release_strong(mut master: ManuallyDrop<ScopePtr<Master<T>>>) {
+        if master.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop data as this was the only strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            // Release the weak reference held by strong fences after the data is destroyed.
+            let _weak = Fence::weak_of(ManuallyDrop::new((*master).clone()));
+            drop_in_place(MaybeDropped::as_mut(&mut master.data));
+        }
+    }
+}
+
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        if self.is_strong() {
+            unsafe { Fence::release_strong(ManuallyDrop::new(self.master.clone())) }
+        } else if self.master.weak_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop Master as this was the only Fence");
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.master) }
+        }
+    }
+}
+
 impl<T> Fence<T> {
     /// Create `Urc` for this `Fence`.
     pub fn into_urc(self) -> Urc<T> {
@@ -109,6 +146,7 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences together also count as one, so Master is freed when this comes to zero.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -125,10 +163,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -164,14 +199,26 @@ impl<T: ?Sized> Urc<T> {
     #[must_use = "this returns a new `Weak` pointer, without modifying the original `Urc`"]
     pub fn downgrade(this: &Self) -> Weak<T> {
         this.fence().inc_weak();
-        unsafe {
-            Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
-            }
+        Weak {
+            fence: ManuallyDrop::new(unsafe { this.fence.clone() }),
         }
     }
 
+    /// Make the `Fence` weak, or free it if it has no `Weak`s. Returns the `Master` the strong
+    /// reference of which should be released then.
+    ///
+    /// # Safety
+    /// This should be the last `Urc` of the `Fence`. It should not be used nor dropped afterwards.
+    unsafe fn detach(&mut self) -> ManuallyDrop<ScopePtr<Master<T>>> {
+        let master = ManuallyDrop::new(self.fence.master.clone());
+        master.weak_fence.fetch_add(1, Relaxed);
+        self.fence().strong.set(0);
+        if self.fence().weak_count() == 0 {
+            ManuallyDrop::drop(&mut self.fence);
+        }
+        master
+    }
+
     #[inline(always)]
     fn master(&self) -> &Master<T> {
         &self.fence.master
@@ -187,11 +234,6 @@ impl<T: ?Sized> Urc<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn fence_mut(&mut self) -> &mut Fence<T> {
-        &mut self.fence
-    }
-
     #[inline]
     pub fn try_into_fence(mut this: Self) -> Result<ScopePtr<Fence<T>>, Self> {
         if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {
@@ -218,7 +260,7 @@ impl<T> Urc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
+            weak_fence: 1.into(),
             data: data.into(),
         };
         let fence = Fence {
@@ -255,7 +297,12 @@ impl<T> Urc<T> {
         unsafe { Ok(Pin::new_unchecked(Self::try_new(data)?)) }
     }
 
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,106 +314,62 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
-
-            // If nothing refers to the Fence no more then release it.
-            if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
-                ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
-            }
-
-            // Prevent normal Drop execution - we already managed resources here.
-            mem::forget(this);
-
+            Urc::release_moved(this);
             Ok(elem)
         }
     }
 
+    /// Release the last strong reference without dropping the data.
+    ///
+    /// # Safety
+    /// The data should be moved out and counter of strong fences should be set to zero.
+    unsafe fn release_moved(this: Self) {
+        let master = ManuallyDrop::new(this).detach();
+        // Release the weak reference held by strong fences.
+        drop(Fence::weak_of(master));
+    }
+
     pub fn make_mut(this: &mut Self) -> &mut T
     where
         T: Clone,
     {
-        // Clone the data into new Urc.
-        macro_rules! clone(
-            () => {{
-                *this = Self::new((*this.data).clone());
-                unsafe { Urc::get_mut_unchecked(this) }
-            }};
-        );
-
-        // Move out the data to another completely new Master.
-        macro_rules! move_out(
-            () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
-                // Set strong to zero to indicate this Fence/Master
-                // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
-
-                *this = Self::new(data);
-                unsafe { Urc::get_mut_unchecked(this) }
-            }};
-        );
-
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
-                }
-            } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
-
-                move_out!()
+        if this.is_unique() {
+            // Nothing else refers to the data so it can be modified in place.
+        } else if this.fence().strong_count() == 1 && Urc::is_sole_strong_fence(this) {
+            // This is the only strong reference. Disassociate weak pointers from the data by
+            // moving it to completely new Master. Allocate at first as this may fail.
+            let master = MaybeUninit::<Master<T>>::uninit();
+            let mut master = ScopePtr::alloc(master, AllocSelector::new::<Master<T>>()).unwrap();
+            let fence = MaybeUninit::<Fence<T>>::uninit();
+            let mut fence = ScopePtr::alloc(fence, AllocSelector::new::<T>()).unwrap();
+
+            unsafe {
+                master.write(Master {
+                    strong_fence: 1.into(),
+                    weak_fence: 1.into(),
+                    data: ptr::read(&this.master().data),
+                });
+                fence.write(Fence {
+                    strong: 1.into(),
+                    weak: 0.into(),
+                    master: ManuallyDrop::new(master.cast()),
+                });
+                let fence = ManuallyDrop::new(fence.cast::<Fence<T>>());
+                let data = Scoped::unsafe_from(&fence.master.data).unsafe_into();
+                let old = mem::replace(this, Urc { fence, data });
+
+                // Set strong to zero to indicate old Master does not own any data no more.
+                old.master().strong_fence.store(0, Release);
+                Urc::release_moved(old);
             }
         } else {
-            clone!()
+            // There are other strong references so clone the data.
+            *this = Self::new((*this.data).clone());
         }
+        unsafe { Urc::get_mut_unchecked(this) }
     }
 
     /// # Safety
@@ -395,26 +398,13 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
-
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        // Only this thread can change the counters of its fence. If the fence is the only one
+        // then other threads have no references. Acquire synchronizes with the releases
+        // of fences by other threads.
+        self.fence().strong_count() == 1
+            && self.fence().weak_count() == 0
+            && self.master().strong_fence.load(Acquire) == 1
+            && self.master().weak_fence.load(Acquire) == 1
     }
 }
 
@@ -443,11 +433,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -496,27 +481,11 @@ impl<T: ?Sized> Clone for Urc<T> {
 impl<T: ?Sized> Drop for Urc<T> {
     fn drop(&mut self) {
         trace!("Dropping Urc");
-        if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
-            // The fence is no more referenced so drop it.
-            trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
-            unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
+        if Urc::fence_strong_count(self) == 1 {
+            // This is the last Urc of the fence.
+            unsafe { Fence::release_strong(self.detach()) }
         } else {
-            // There are still either other strong or some weak references.
+            // There are still other strong references.
             // Just decrement the counter and keep the Fence.
             self.fence().dec_strong()
         }
@@ -525,22 +494,10 @@ impl<T: ?Sized> Drop for Urc<T> {
 
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
-        if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
+        self.fence().dec_weak();
+        if self.fence_weak_count() == 0 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
-        } else {
-            // There are still either some strong or other weak references.
-            // Just decrement the counter and keep the Fence.
-            self.fence().dec_weak()
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         }
     }
 }
-- 
2.43.0


From 6f22e672eee7ecbc5cf7e64243c3bf310086eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 42/44] fix: Rc, Arc and Urc must drop the value when
 allocation for it fails

---
 src/arc.rs | 12 ++++++------
 src/rc.rs  | 11 ++++++-----
 src/urc.rs |  9 ++++++---
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 432c579..deb71b1 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -123,15 +123,15 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let inner = ArcInner {
+        // ArcInner does not drop the data so it should own it only after successful allocation.
+        let inner = MaybeUninit::<ArcInner<T>>::uninit();
+        let mut inner = ScopePtr::alloc(inner, AllocSelector::new::<T>())?;
+        inner.write(ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
             data: data.into(),
-        };
-        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
-            inner,
-            AllocSelector::new::<T>(),
-        )?)))
+        });
+        Ok(Arc(ManuallyDrop::new(unsafe { inner.cast() })))
     }
 
     #[inline]
diff --git a/src/rc.rs b/src/rc.rs
index 54887e6..26d9945 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,14 +108,15 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
-        let b = RcBox {
+        // RcBox does not drop the value so it should own it only after successful allocation.
+        let block = MaybeUninit::<RcBox<T>>::uninit();
+        let mut block = ScopePtr::alloc(block, AllocSelector::new::<T>()).unwrap();
+        block.write(RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
             val: val.into(),
-        };
-        Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
-        ))
+        });
+        Rc(ManuallyDrop::new(unsafe { block.cast() }))
     }
 
     pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
diff --git a/src/urc.rs b/src/urc.rs
index d7d7694..33cfabc 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -258,15 +258,18 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let master = Master {
+        // Master does not drop the data so it should own it only after successful allocation.
+        let master = MaybeUninit::<Master<T>>::uninit();
+        let mut master = ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?;
+        master.write(Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
             data: data.into(),
-        };
+        });
         let fence = Fence {
             strong: 1.into(),
             weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
+            master: ManuallyDrop::new(unsafe { master.cast() }),
         };
         let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
         let urc = Urc {
-- 
2.43.0


From 9bf2abe20832f41634989c4700307313ef3d0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 43/44] fix: boxed slice of a full vector of zero-sized values
 keeps its length

---
 src/vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 015ffec..b69bc67 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -246,7 +246,7 @@ impl<T: 'static> Vec<T> {
     #[cold]
     fn shrink(&mut self, capacity: usize) -> Result<(), ArrayAllocError> {
         // This is ensured by the calling contexts.
-        debug_assert!(self.capacity() > capacity);
+        debug_assert!(self.capacity() >= capacity);
         debug_assert!(self.len <= capacity);
 
         unsafe { self.ptr.realloc_array(capacity) }
@@ -254,7 +254,8 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn shrink_to_fit(&mut self) {
-        if self.len() < self.capacity() {
+        // The length of the pointer is not the capacity for zero-sized elements.
+        if self.len() != self.ptr.len() {
             self.shrink(self.len()).unwrap();
         }
     }
-- 
2.43.0


From ad435930945aea2eb7a56295d65abd7b1061fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 44/44] fix: a String keeps its allocator marker when it is
 extended by other Strings

---
 src/string.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 64012c9..3071a4d 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -507,7 +507,13 @@ impl Extend<String> for String {
         // Use already allocated String if current one is not.
         if self.capacity() == 0 {
             if let Some(s) = iter.next() {
-                self.vec = s.vec;
+                // The marker of this String should not be replaced by another one.
+                let marker = self.vec.marker();
+                if marker == AllocMarker::None || marker == s.vec.marker() {
+                    self.vec = s.vec;
+                } else {
+                    self.push_str(&s);
+                }
             }
         }
 
-- 
2.43.0

