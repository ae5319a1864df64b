From 7480132c7ac71a2a548713a3c27c52bacea2ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:08 +0000
Subject: [PATCH 01/23] fix: SkipMap::iter_mut must borrow the map exclusively

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..fd37783 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -927,7 +927,7 @@ impl<T, U> SkipMap<T, U> {
     /// assert_eq!(iterator.next(), Some((&2, &mut 3)));
     /// assert_eq!(iterator.next(), None);
     /// ```
-    pub fn iter_mut(&self) -> SkipMapIterMut<'_, T, U> {
+    pub fn iter_mut(&mut self) -> SkipMapIterMut<'_, T, U> {
         unsafe {
             SkipMapIterMut {
                 current: &mut *(*self.head).get_pointer_mut(0),
-- 
2.43.0


From 259702f7dc2a9e1460441f57f4baa537adf99857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:57 +0000
Subject: [PATCH 02/23] fix: Stack::try_pop dropped the popped value a second
 time when its node was reclaimed

---
 src/sync/stack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..532a786 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,12 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    // The value is moved out by the thread that unlinks the node, so it must not be dropped again
+    // when the memory of the node is reclaimed.
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +64,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +115,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&(*head).value)));
                         }
                     }
                 }
-- 
2.43.0


From 1cb77bc1226a42f938f736ba3e4dca1b3cae59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:12 +0000
Subject: [PATCH 03/23] fix: Stack leaked the nodes and values left in it when
 dropped

---
 src/sync/stack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 532a786..04b259d 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -159,6 +159,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 9e620beb298a0fb7c12bdbe2ba98d722fcb82906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:27 +0000
Subject: [PATCH 04/23] fix: Stack::len could wrap around while an item is
 pushed and popped concurrently

---
 src/sync/stack.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 04b259d..9fcfc1e 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -68,6 +68,10 @@ impl<T> Stack<T> {
             next: Atomic::null(),
         });
 
+        // Counted before it is published: otherwise a concurrent pop of this very item could
+        // decrement first and wrap the count around.
+        self.len.fetch_add(1, Ordering::Release);
+
         let guard = &crossbeam_epoch::pin();
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
@@ -76,10 +80,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From eefb61ea0303d540f7ef9d3c9104611e46af6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:56 +0000
Subject: [PATCH 05/23] fix: freeing an arena entry twice lost the list of free
 blocks before panicking

---
 src/arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..be695a7 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,6 +138,9 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
+        if let Block::Vacant(_) = self.chunks[entry.chunk_index][entry.block_index] {
+            panic!("Error: attempting to free vacant block.");
+        }
         let old_block = mem::replace(
             &mut self.chunks[entry.chunk_index][entry.block_index],
             Block::Vacant(self.head.take()),
-- 
2.43.0


From 41449d9cbcb53c33ad466d66f4159187607221bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 06/23] fix: dropping a partly consumed skip list into_iter
 dropped the remaining elements twice

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..fcbffe1 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index fd37783..fe925e7 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From b2f05dcaadc4dea54c0616f1701072f464659bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 07/23] fix: SkipMap::intersection wrote one link past the end
 of every kept node

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index fe925e7..ea073ea 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From b45df57baa2237609c4d15c05cb3103642ad4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:01 +0000
Subject: [PATCH 08/23] fix: SkipMap difference followed a null link when the
 right operand was exhausted first

---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index ea073ea..d944532 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 0720555217d161d45943c52a0dbc25b20823fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:01 +0000
Subject: [PATCH 09/23] fix: SkipList::remove left the spans of trailing links
 stale, which broke indexing after an append

---
 src/skiplist/list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index fcbffe1..e1c5f9a 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,19 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    // The last link of a level spans the elements up to the end of the list.
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From 2c326d3b6ab01b6f606886eaf667cc7079c67779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:10 +0000
Subject: [PATCH 10/23] fix: skip list links were reached by an out-of-range
 get_unchecked, which aborts with current toolchains

---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index e1c5f9a..dcf4f30 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -438,7 +438,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -515,9 +515,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*self.head).get_pointer(0).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index d944532..46e9b89 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).get_pointer(0),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From 026094facfa61957175beea7e6d7fecc4bdfbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 11/23] fix: skip list nodes ignored the alignment of their
 contents

---
 src/skiplist/list.rs | 21 +++++++++++++--------
 src/skiplist/map.rs  | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index dcf4f30..472db34 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,23 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + link_size * links_len,
+            mem::align_of::<Node<T>>(),
+        )
+        .expect("Error: node layout overflow.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +63,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 46e9b89..d5431a3 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -33,18 +34,23 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
         let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + ptr_size * links_len,
+            mem::align_of::<Node<T, U>>(),
+        )
+        .expect("Error: node layout overflow.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -53,8 +59,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From 0a42be0c4e4b296f4c723361e5b5a6633312b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:52 +0000
Subject: [PATCH 12/23] fix: removing an AVL node with two children left stale
 heights and an unbalanced tree behind

---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..8e4bf1b 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let ret = remove_min(&mut node.left);
+            balance(tree);
+            return ret;
         }
     }
 
-- 
2.43.0


From d66a5a165be1cc4ec5e5524e2cb2ce8f298499a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:26 +0000
Subject: [PATCH 13/23] fix: inserting into a radix map panicked after its last
 entry had been removed

---
 src/radix/tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..f18dc5c 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,13 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    let node = match tree {
+        Some(ref mut node) => node,
+        None => {
+            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+            return None;
+        }
+    };
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From 2f187f49623932a4f69c1cf1539eddbd126f3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:14 +0000
Subject: [PATCH 14/23] fix: len and max of the LSM strategies ignored read
 errors

---
 src/lsm_tree/compaction/leveled.rs     | 14 ++++++++++----
 src/lsm_tree/compaction/size_tiered.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..82fbd62 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -591,7 +591,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -633,10 +638,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..b7a85a1 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -488,7 +488,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -529,10 +534,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
-- 
2.43.0


From 47b12c7a4ed72ff3e96d8ccfa7ab9c670744a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:14 +0000
Subject: [PATCH 15/23] fix: LsmMap::min and max returned keys whose removal
 was still in memory

---
 src/lsm_tree/map.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..b013b43 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -4,7 +4,6 @@ use bincode::serialized_size;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
-use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
 use std::mem;
@@ -401,20 +400,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn min(&mut self) -> Result<Option<T>> {
-        let in_memory_min = self
-            .in_memory_tree
-            .iter()
-            .find(|entry| entry.1.data.is_some())
-            .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
-
-        if in_memory_min.is_none() {
-            Ok(disk_min)
-        } else if disk_min.is_none() {
-            Ok(in_memory_min)
-        } else {
-            Ok(cmp::min(in_memory_min, disk_min))
-        }
+        self.flush()?;
+        self.compaction_strategy.min()
     }
 
     /// Returns the maximum key of the map. Returns `None` if the map is empty.
@@ -440,14 +427,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        self.flush()?;
+        self.compaction_strategy.max()
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From 1b56359b08d874a1c0339eb82f9e395e9b08beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:15 +0000
Subject: [PATCH 16/23] fix: an LSM strategy without any operation could not be
 opened again

---
 src/lsm_tree/compaction/leveled.rs     | 2 ++
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 82fbd62..4be9d4f 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -189,6 +189,8 @@ where
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index b7a85a1..6058ab7 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -243,6 +243,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
-- 
2.43.0


From 27607a6678e1bc6af035ebe2c163b9ddba9e8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:16 +0000
Subject: [PATCH 17/23] fix: LSM strategies removed SSTables before the
 metadata stopped referring to them

---
 src/lsm_tree/compaction/leveled.rs     | 48 +++++++++++--------------
 src/lsm_tree/compaction/size_tiered.rs | 50 +++++++++++---------------
 2 files changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 4be9d4f..1811d63 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -245,7 +245,11 @@ where
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -276,6 +280,11 @@ where
                 .flat_map(|level| level.iter().map(|level_entry| &level_entry.1.path));
             let new_sstable_paths: HashSet<_> = path_iter.chain(level_path_iter).collect();
 
+            // the metadata must no longer refer to the old SSTables when they are removed
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             let old_path_iter = old_sstables.iter().map(|sstable| &sstable.path);
             let old_level_path_iter = old_levels
                 .iter()
@@ -286,11 +295,9 @@ where
                     fs::remove_dir_all(path)?;
                 }
             }
-
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 
     fn compact<P>(
@@ -497,10 +504,7 @@ where
         // taking snapshot of current metadata
         let metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -519,10 +523,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -533,10 +534,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -567,10 +565,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstables_len_hint: usize = curr_metadata
             .sstables
@@ -619,6 +614,9 @@ where
         curr_metadata.levels.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -626,9 +624,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -651,10 +646,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 6058ab7..857e58d 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -352,7 +352,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -372,15 +376,18 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
+            // the metadata must no longer refer to the old SSTables when they are removed
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             for old_sstable in old_sstables {
                 if !new_sstable_paths.contains(&old_sstable.path) {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
                 }
-            }
-            Ok(true)
-        } else {
-            Ok(false)
-        }
+            }        }
+
+        Ok(())
     }
 }
 
@@ -421,10 +428,7 @@ where
         // taking snapshot of current metadata
         let mut metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -443,10 +447,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -457,10 +458,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -475,10 +473,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let len_hint = curr_metadata
             .sstables
@@ -515,6 +510,9 @@ where
         curr_metadata.sstables.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -522,9 +520,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -547,10 +542,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
-- 
2.43.0


From 55e37f8e86134e675adad9f67274c486f0ae5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:16 +0000
Subject: [PATCH 18/23] fix: LsmMap lost its in-memory entries when writing
 them to disk failed

---
 src/lsm_tree/map.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index b013b43..720889f 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -6,7 +6,6 @@ use serde::ser::Serialize;
 use std::borrow::Borrow;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -87,16 +86,22 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            let value = SSTableValue {
+                data: value.data.clone(),
+                logical_time: value.logical_time,
+            };
+            sstable_builder.append(key.clone(), value)?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+        self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
-- 
2.43.0


From 6af6c488b7b89cc6c4b7a7f7e7d6341c2d84e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 19/23] fix: an LSM iterator that failed to open blocked all
 further compactions

---
 src/lsm_tree/compaction/leveled.rs     | 8 ++++----
 src/lsm_tree/compaction/size_tiered.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 1811d63..72fe6f8 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -723,10 +723,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -751,6 +747,10 @@ where
             }
         }
 
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 857e58d..3f9debf 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -581,10 +581,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -594,6 +590,10 @@ where
             }
         }
 
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From 66b47bce04f6c7ecb372b0dbee2243c51cfbf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:37 +0000
Subject: [PATCH 20/23] fix: a size tiered compaction that purged tombstones
 brought removed entries back

---
 src/lsm_tree/compaction/size_tiered.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 3f9debf..3845158 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -176,6 +176,7 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    snapshot_paths: HashSet<PathBuf>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -237,6 +238,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
                 bucket_high,
             ))),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         };
 
         {
@@ -293,6 +295,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         })
     }
 
@@ -328,6 +331,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         let path = self.path.clone();
         let next_metadata = self.next_metadata.clone();
+        self.snapshot_paths = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.path.clone())
+            .collect();
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
         self.compaction_thread_join_handle = Some(thread::spawn(move || {
@@ -360,16 +368,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .filter(|sstable| !self.snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
-- 
2.43.0


From fa6be5dcd0ed37e10e67c11f8f08d2227bcab240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:49 +0000
Subject: [PATCH 21/23] fix: removing from a B+ tree of internal degree two
 left internal nodes without keys

---
 src/bp_tree/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..4858c24 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -376,7 +377,9 @@ impl<T, U> BpMap<T, U> {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            // an internal node other than the root needs a key, even if its degree is two
+            let min_children = cmp::max((self.pager.get_internal_degree() + 1) / 2, 2);
+            let is_underflow = curr_node.len + 1 < min_children;
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +403,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == min_children {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From a92cb8f3279ffd9bf27ffe0f428464d11a996940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:49 +0000
Subject: [PATCH 22/23] fix: full B+ tree nodes did not fit into their page for
 some key and value types

---
 src/bp_tree/node.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..787a969 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -7,6 +7,9 @@ use std::mem;
 
 const U64_SIZE: u64 = mem::size_of::<u64>() as u64;
 const OPT_U64_SIZE: u64 = mem::size_of::<Option<u64>>() as u64;
+// an option is encoded with a tag of one byte, and a variant with a tag of four bytes
+const OPT_TAG_SIZE: u64 = 1;
+const VARIANT_TAG_SIZE: u64 = 4;
 pub const BLOCK_SIZE: u64 = 4096;
 
 #[derive(Serialize, Deserialize)]
@@ -29,7 +32,7 @@ impl<T, U> InternalNode<T, U> {
     fn get_payload_size(key_size: u64) -> u64 {
         let option_size = mem::size_of::<Option<T>>() as u64;
         let entry_size = mem::size_of::<T>() as u64;
-        U64_SIZE + key_size + option_size - entry_size
+        U64_SIZE + key_size + cmp::max(option_size - entry_size, OPT_TAG_SIZE)
     }
 
     #[inline]
@@ -202,7 +205,7 @@ impl<T, U> LeafNode<T, U> {
     fn get_payload_size(key_size: u64, value_size: u64) -> u64 {
         let option_size = mem::size_of::<Option<Entry<T, U>>>() as u64;
         let entry_size = mem::size_of::<Entry<T, U>>() as u64;
-        key_size + value_size + option_size - entry_size
+        key_size + value_size + cmp::max(option_size - entry_size, OPT_TAG_SIZE)
     }
 
     #[inline]
@@ -371,9 +374,16 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
+        // the size of a leaf leaves room for the tag of the variant, that of an internal node may not
+        let encoded_internal_size = VARIANT_TAG_SIZE
+            + InternalNode::<T, U>::get_constant_size()
+            + internal_degree as u64 * (U64_SIZE + key_size + OPT_TAG_SIZE);
         cmp::max(
             LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            cmp::max(
+                InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+                encoded_internal_size,
+            ),
         )
     }
 }
-- 
2.43.0


From 79cd79d894221e9789219b099d9ce644ed95cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 23/23] fix: replacing an entry of a full B+ tree leaf lost the
 entries already moved to the split leaf

---
 src/bp_tree/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 787a969..2c014a8 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -250,6 +250,15 @@ impl<T, U> LeafNode<T, U> {
         }
         // node is full; have to split
         else {
+            // replacing an entry does not need room
+            for index in 0..leaf_degree {
+                if let Some(ref mut entry) = self.entries[index] {
+                    if new_entry == *entry {
+                        mem::swap(entry, &mut new_entry);
+                        return Some(InsertCases::Entry(new_entry));
+                    }
+                }
+            }
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
-- 
2.43.0

