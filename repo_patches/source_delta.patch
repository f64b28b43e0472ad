From 91cf850454a416456b38a8cd5a18d3fe30ffccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 01/14] fix: place nodes correctly when tuple notations end
 nested groups together

---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From ca043986cf860a1fc4664ef9ac4be35dc7f84ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 02/14] fix: visit children before their parent in
 postorder_with_size_hint of tuple trees

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From 39a93dbc74a6a1ba5ee5a06ecfc5d3ff6767468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 03/14] fix: count cloned handles of piled nodes as owners of
 the node vector

---
 src/rc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..99b296b 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -114,6 +114,7 @@ impl<T> Clone for RcNode<T> {
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
                     let node = node_vec.as_ref().buf.get_unchecked( *index );
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
-- 
2.43.0


From 58cc33dffafb476f2ba976684f35d6be365becf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 04/14] fix: count weak handles of piled nodes as owners of the
 node vector

---
 src/rc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 99b296b..ced7cdb 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -456,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
-- 
2.43.0


From baf1dc78ec2be60b6f99f44708d19a01c608f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 05/14] fix: count upgraded handles of piled nodes as owners of
 the node vector

---
 src/rc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rc.rs b/src/rc.rs
index ced7cdb..bda5161 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -548,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From ef8fcdc3f8fe7676ddabc8ff4d8b42d4ba667965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 06/14] fix: let IterRc own the next child so that it is never
 dangling

---
 src/iter_rc.rs | 28 ++++++++++++++++------------
 src/lib.rs     |  1 -
 src/rc.rs      | 13 ++++++++++++-
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..c057e56 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::RcNode;
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,35 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    next : Option<RcNode<T>>, // owns the node to be yielded, in case that it is detached in the meanwhile.
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        if self.len == 0 {
+            return None;
+        }
+        self.len -= 1;
+        self.next.take().map( |curr| {
+            if self.len > 0 {
+                self.next = curr.next_sib();
+            }
+            curr
+        })
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { (self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
-    }
+    pub(crate) fn new( next: Option<RcNode<T>>, len: usize ) -> Self { IterRc{ next, len }}
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ next: self.next.clone(), len: self.len }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index bda5161..b095203 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -448,10 +448,21 @@ impl<T> RcNode<T> {
         if node.has_no_child() {
             IterRc::new( None, 0 )
         } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
+            IterRc::new( node.front().map( |front| front.rc() ), node.degree() )
         }
     }
 
+    // Does not borrow the node dynamically: its data may be mutably borrowed during the iteration over its siblings.
+    pub(crate) fn next_sib( &self ) -> Option<RcNode<T>> {
+        let node = match self {
+            RcNode::Scattered( ScatteredRcNode( rc )) => rc.deref().as_ptr() as *const Node<T>,
+            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
+                node_vec.as_ref().buf.get_unchecked( *index ).deref().as_ptr() as *const Node<T>
+            },
+        };
+        unsafe{ (*node).next.map( |next| next.as_ref().rc() )}
+    }
+
     /// Creates a new weak pointer to this node.
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
-- 
2.43.0


From 35da86ee20e68a19e04a04d749208faf69fb432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 07/14] fix: keep the cursor on its node when to_sib() finds no
 such sibling

---
 src/walk.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..567a823 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -206,19 +206,17 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            let mut node = nodes.node;
             for _ in 0..n {
-                nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
-                if nodes.node == nodes.sentinel {
+                node = unsafe{ node.unwrap().as_ref().next };
+                if node == nodes.sentinel {
                     self.direction = Direction::Up;
                     return None;
                 }
             }
-            if unsafe{ nodes.node.unwrap().as_ref().has_no_child() } {
-                self.visit_type = VisitType::Leaf;
-            } else {
-                self.visit_type = VisitType::Begin;
-                self.direction = Direction::Down;
-            }
+            nodes.node = node;
+            self.direction = Direction::Down;
+            self.visit_type = if unsafe{ node.unwrap().as_ref().has_no_child() } { VisitType::Leaf } else { VisitType::Begin };
         } else {
             return None;
         }
-- 
2.43.0


From 83c4e24a90bcdffdd70bdfc1208d2a4203f1eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 08/14] fix: refuse to deep_clone() a shared node while a
 descendant is mutably borrowed

---
 src/rc.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index b095203..5f7d6b7 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -511,6 +511,10 @@ impl<T> RcNode<T> {
 impl<T:Clone> RcNode<T> {
     /// Clones the node deeply and creates a new tree.
     ///
+    /// # Panics
+    ///
+    /// Panics if this node or any of its descendants is mutably borrowed.
+    ///
     /// # Examples
     ///
     /// ```
@@ -520,7 +524,15 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        fn assert_readable<T>( node: &RcNode<T> ) {
+            node.node_borrow();
+            node.iter_rc().for_each( |child| assert_readable( &child ));
+        }
+
+        assert_readable( self );
+        self.node_borrow().deep_clone()
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From e70bb8752e4bd9a964f70292f37cb374d183a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 09/14] fix: count the live nodes of a contiguous block
 atomically, cursors send pieces of it to other threads

---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  5 +++--
 src/rc.rs       | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76d64dd..64648aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic;
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic;
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..f43cd9a 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,8 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    // alive node count, shared by pieces which may have been sent to other threads by cursors.
+    pub(crate) ref_cnt : atomic::AtomicUsize,
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +18,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: atomic::AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index 5f7d6b7..3fe0b98 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,22 @@ impl RefCount for Cell<usize> {
     }
 }
 
+impl RefCount for atomic::AtomicUsize {
+    fn incr( &self ) {
+        use atomic::Ordering::Relaxed;
+        self.fetch_update( Relaxed, Relaxed, |count| if count == 0 { None } else { count.checked_add( 1 )}).unwrap();
+    }
+
+    fn decr( &self ) -> usize {
+        use atomic::Ordering::{Acquire, Release};
+        let count = self.fetch_sub( 1, Release ).checked_sub( 1 ).unwrap();
+        if count == 0 {
+            atomic::fence( Acquire );
+        }
+        count
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From d32d020731f8205ccc29f987960f2cacd2e9749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 10/14] fix: children left by a panicking destructor pointed to
 their released parent

When the data of a child panicked in its destructor while the last handle to its parent was dropped, the
remaining children stayed linked to the parent, which was released: parent() of another handle to such a child
read released memory.
---
 src/rc.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 3fe0b98..6fc7ca4 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -139,20 +139,34 @@ impl<T> Clone for RcNode<T> {
     }
 }
 
+// Takes all children off a node which is about to be dropped. Destructors of user data may panic, but children which are
+// referenced elsewhere must not keep pointing to their late parent.
+struct DropChildren<'a,T:'a>( &'a RcNode<T> );
+
+impl<'a,T> Drop for DropChildren<'a,T> {
+    fn drop( &mut self ) {
+        while let Some( child ) = self.0.pop_front() {
+            let rest = DropChildren( self.0 );
+            drop( child );
+            mem::forget( rest );
+        }
+    }
+}
+
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
         let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    drop( DropChildren( self ));
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    drop( DropChildren( self ));
                 }
             },
         }
-- 
2.43.0


From e9dda641ce77e5645de54c5560bc80e4472d15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 11/14] fix: Tree/Forest::from() a breadth first sequence whose
 sizes do not add up corrupted memory

The sizes are the caller's: more visits than announced were written beyond the block of nodes, fewer left nodes
without data. Both are refused now, as are descendant counts which do not fit.
---
 src/bfs_impls.rs | 10 ++++++++--
 src/node_vec.rs  |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..5ee6662 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -274,7 +274,7 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
     fn from( tree_iter: BfsTree<Iter> ) -> Self {
         let mut iter = tree_iter.wrap().iter();
         let visit_root = iter.next().unwrap();
-        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants+1);
+        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants.checked_add(1).unwrap());
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
@@ -287,6 +287,7 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains != 0 && child < node_cnt ); // no more visits than announced
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -301,6 +302,8 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
             child += 1;
         }
 
+        assert!( remains == 0 && child == node_cnt && unsafe{ node_vec.as_ref().sizes_add_up() }); // no less, either
+
         Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
@@ -322,7 +325,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
 {
     fn from( forest_iter: BfsForest<Iter> ) -> Self {
         let (mut iter, size) = forest_iter.wrap().iter_and_size();
-        let (degree, node_cnt) = (size.degree, size.descendants+1);
+        let (degree, node_cnt) = (size.degree, size.descendants.checked_add(1).unwrap());
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
@@ -336,6 +339,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains != 0 && child < node_cnt ); // no more visits than announced
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
@@ -350,6 +354,8 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
             child += 1;
         }
 
+        assert!( remains == 0 && child == node_cnt && unsafe{ node_vec.as_ref().sizes_add_up() }); // no less, either
+
         Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
 }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index f43cd9a..2c1be45 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -65,6 +65,13 @@ impl<T> NodeVec<T> {
         self.node_mut( parent ).tail = Some( child );
     }
 
+    // Checks if each node's descendant count fits those of its children.
+    pub(crate) fn sizes_add_up( &self ) -> bool {
+        ( 0..self.buf.len() ).map( |index| self.node( index )).all( |node|
+            node.size.descendants == node.iter().map( |child| child.size.descendants+1 ).sum()
+        )
+    }
+
     pub(crate) fn construct_tree<Tuple,Shape>( &mut self, tuple: Tuple )
         where Tuple: TupleTree<T,Shape>
     {
-- 
2.43.0


From c584bcddd6bdecd3192af851831dbfa1fd770b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:58 +0000
Subject: [PATCH 12/14] fix: releasing a contiguously stored node left its
 strong count alone: weak handles surviving into_tree() could be upgraded to a
 released node

---
 src/heap.rs     |  2 +-
 src/node.rs     |  4 ++--
 src/node_vec.rs | 11 +++++++++++
 src/tree.rs     |  3 ++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/heap.rs b/src/heap.rs
index 4648017..49718c0 100644
--- a/src/heap.rs
+++ b/src/heap.rs
@@ -39,7 +39,7 @@ pub(crate) fn drop_node<T>( mut node: NonNull<Node<T>> ) {
             },
             Data::PiledNone    { owner     } |
             Data::Piled        { owner, .. } => {
-                NodeVec::decr_ref( owner );
+                NodeVec::release( owner, node );
             },
         }
     }
diff --git a/src/node.rs b/src/node.rs
index 386f794..f60583e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -54,10 +54,10 @@ impl<T> Data<T> {
         mem::replace( self, other )
     }
 
-    pub(crate) fn into_inner( self ) -> T {
+    pub(crate) fn into_inner( self, node: NonNull<Node<T>> ) -> T {
         match self {
             Data::Piled{ data, owner } => {
-                NodeVec::decr_ref( owner );
+                NodeVec::release( owner, node );
                 data
             },
             Data::Scattered{ data, owner } => {
diff --git a/src/node_vec.rs b/src/node_vec.rs
index 2c1be45..8ad026b 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -166,6 +166,17 @@ impl<T> NodeVec<T> {
         Tuple::preorder_with_size_hint( tuple, &mut f );
     }
 
+    // Releases a node owned by a tree or forest, rather than by RcNodes. There may be WeakNodes left from before into_tree(), though.
+    pub(crate) fn release( owner: NonNull<NodeVec<T>>, node: NonNull<Node<T>> ) {
+        unsafe {
+            use super::rc::RefCount;
+            let buf = &owner.as_ref().buf;
+            let index = ( node.as_ptr() as usize - buf.as_ptr() as usize ) / mem::size_of::<Shared<RefCell<Node<T>>>>();
+            buf.get_unchecked( index ).count.decr();
+        }
+        NodeVec::decr_ref( owner );
+    }
+
     pub(crate) fn decr_ref( owner: NonNull<NodeVec<T>> ) {
         unsafe {
             let node_vec = owner.as_ref();
diff --git a/src/tree.rs b/src/tree.rs
index 41ddaec..d57d016 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -55,7 +55,8 @@ impl<T> Tree<T> {
     }
 
     pub(crate) fn into_data( mut self ) -> T {
-        let value = self.root_mut_().data.replace( Data::None ).into_inner();
+        let root = self.root;
+        let value = self.root_mut_().data.replace( Data::None ).into_inner( root );
         mem::forget( self );
         value
     }
-- 
2.43.0


From 8ea538d9670a2fa144c6785ec0fdeb96b20dec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:50 +0000
Subject: [PATCH 13/14] fix: deep_clone() of shared nodes read released memory
 when T::clone() removed nodes being copied by other handles

---
 src/rc.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 6fc7ca4..ddb4b44 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -555,13 +555,17 @@ impl<T:Clone> RcNode<T> {
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
     pub fn deep_clone( &self ) -> Tree<T> {
-        fn assert_readable<T>( node: &RcNode<T> ) {
-            node.node_borrow();
-            node.iter_rc().for_each( |child| assert_readable( &child ));
+        // Nodes are borrowed until they all have been copied, since T::clone() may make use of handles to them.
+        let mut nodes = Vec::new();
+        nodes.push( self.clone() );
+        let mut copied = 0;
+        while copied < nodes.len() {
+            let children = nodes[ copied ].iter_rc();
+            nodes.extend( children );
+            copied += 1;
         }
-
-        assert_readable( self );
-        self.node_borrow().deep_clone()
+        let borrowed = nodes.iter().map( |node| node.node_borrow() ).collect::<Vec<_>>();
+        borrowed[0].deep_clone()
     }
 }
 
-- 
2.43.0


From ee4e0d05b7e6dcbc8f7ccd514e49575d28d4ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:54 +0000
Subject: [PATCH 14/14] fix: destructors run by the last handle to a node saw
 its other children still pointing to it; parent() on them panicked in
 contiguous storage

---
 src/rc.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index ddb4b44..ad9f446 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -139,17 +139,12 @@ impl<T> Clone for RcNode<T> {
     }
 }
 
-// Takes all children off a node which is about to be dropped. Destructors of user data may panic, but children which are
-// referenced elsewhere must not keep pointing to their late parent.
-struct DropChildren<'a,T:'a>( &'a RcNode<T> );
-
-impl<'a,T> Drop for DropChildren<'a,T> {
-    fn drop( &mut self ) {
-        while let Some( child ) = self.0.pop_front() {
-            let rest = DropChildren( self.0 );
-            drop( child );
-            mem::forget( rest );
-        }
+// Takes all children off a node which is about to be dropped, and only then drops them: destructors of user data may panic or
+// make use of handles, but children which are referenced elsewhere must not be seen pointing to their late parent.
+fn drop_children<T>( node: &RcNode<T> ) {
+    let mut children = Vec::new();
+    while let Some( child ) = node.pop_front() {
+        children.push( child );
     }
 }
 
@@ -159,14 +154,14 @@ impl<T> Drop for RcNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    drop( DropChildren( self ));
+                    drop_children( self );
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    drop( DropChildren( self ));
+                    drop_children( self );
                 }
             },
         }
-- 
2.43.0

