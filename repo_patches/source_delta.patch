From e47fe3bb62adc424cf8b7f09f362e277abc345ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 01/18] fix: reject i32 coordinates that don't fit in u16
 instead of truncating them

---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..9e27cdc 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).map_err(|_| Error::OutOfBounds)?;
+        let y = u16::try_from(xy.1).map_err(|_| Error::OutOfBounds)?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From 33309f5d246ea8bc0fb8c67ba28737a56996f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 02/18] fix: don't truncate indexes in Grid::extend_from_vecvec

---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From edc044d10378310d032d8bdcbe5d48c9d0358aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 03/18] fix: enforce Grid SIZE == WIDTH * HEIGHT in all
 constructors

Grid::get uses get_unchecked, and the assertion was never instantiated.
---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d4cd094..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From ade9109b455048444fdbfe24bfac7571b89ddd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 04/18] fix: off-by-one in WIDTH and HEIGHT of the integer
 tuple positions

---
 src/sqrid/postrait.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..65e23a4 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -587,8 +587,12 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize = (<$xtype>::MAX as usize)
+                .wrapping_sub(<$xtype>::MIN as usize)
+                .saturating_add(1);
+            const HEIGHT: usize = (<$ytype>::MAX as usize)
+                .wrapping_sub(<$ytype>::MIN as usize)
+                .saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From 85238730107af428df678d85d0111f471ca98da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 05/18] fix: bound path length by the number of coordinates in
 camefrom_into_path

Using width * width returned Error::Loop for valid paths in tall grids.
---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..e22e1e8 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 9778ae64a8b11ed5b5209fa2dfc6d0ad09bde855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 06/18] fix: start column and line iterators at the first
 coordinate, not at 0

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 65e23a4..d744ba3 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From cb69fe4467b1f559659d7971a0d510a618c1d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 07/18] fix: PosTIterRange lost its last position when it was
 on the last line

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index d744ba3..4675774 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    let y = p.y().inc();
+                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From f4bbaa7ef697574be01ea4b61ac13fa242c13a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 08/18] fix: Dir::next panicked on NW when not using diagonals

---
 src/sqrid/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..c8a589d 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -166,7 +166,7 @@ impl Dir {
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
+        if (D && index == 7) || (!D && index >= 6) {
             None
         } else if D {
             Some(Dir::ALL8[(*self as usize) + 1])
-- 
2.43.0


From 70d647ea2c96851681ae682be35acb4b06b9b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 09/18] fix: rotate the innermost squares of even-sized
 Gridbools

---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..e9b0bf0 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 0338236a81ef62775074da5c244a9817beaeed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 10/18] fix: don't set the padding bits of a Gridbool filled
 with true

---
 src/sqrid/gridbool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e9b0bf0..620cfbc 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,14 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Keep the bits past the end of the grid cleared, as they take
+        // part in comparisons and hashes:
+        let size = P::WIDTH * P::HEIGHT;
+        if size / 32 < WORDS {
+            words[size / 32] &= !(Self::WORD_TRUE >> (size % 32));
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 8695795567161e21b03369fb3431417d441813fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 11/18] fix: skip outdated frontier entries in UcsIterator

---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..b9e95af 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(cost), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if cost > *self.cost.get(&pos) {
+                // A cheaper way to get here was found after this entry was queued
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 7d297587abbb2390455b7259cbeac4b28782a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 12/18] fix: don't overflow when adding costs in UcsIterator

---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index b9e95af..6de3c47 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From aef23fc5fc90f070fa256df3028605435f5f5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 13/18] fix: skip outdated frontier entries in AstarIterator

---
 src/sqrid/astar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..dc4ba0f 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -109,8 +109,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+                // A shorter way to get here was found after this entry was queued
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -121,10 +125,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 8dd83c6d04151fef511a689c401f43d54f15b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 14/18] fix: use an admissible A* heuristic when diagonals are
 allowed

---
 src/sqrid/astar.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index dc4ba0f..6bb26e5 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -44,6 +44,7 @@
 //! }
 //! ```
 
+use std::cmp::max;
 use std::cmp::Reverse;
 use std::collections;
 use std::collections::BinaryHeap;
@@ -56,6 +57,21 @@ use super::Grid;
 use super::MapPos;
 use super::Sqrid;
 
+/* Heuristic ******************************************************************/
+
+/// Lower bound for the number of steps between two positions
+///
+/// That's the manhattan distance when diagonals are not used. When they are, a single step can
+/// change both coordinates, and the bound is the largest of the coordinate differences.
+fn heuristic<P: PosT, const D: bool>(pos: &P, dest: &P) -> usize {
+    if D {
+        let corner = P::new_((pos.x(), dest.y()));
+        max(pos.manhattan(&corner), corner.manhattan(dest))
+    } else {
+        pos.manhattan(dest)
+    }
+}
+
 /* AstarIterator **************************************************************/
 
 /// Internal A* iterator
@@ -111,7 +127,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
-            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+            if priority > *self.cost.get(&pos) + heuristic::<P, D>(&pos, &self.dest) {
                 // A shorter way to get here was found after this entry was queued
                 continue;
             }
@@ -120,7 +136,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From 4f9382754e5c78d35ba4acc7d0d2776ee95afab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 15/18] fix: make the value inside bounded integers private

Otherwise safe code can create values outside the bounds, and use them in
Pos coordinates that Grid uses in unchecked accesses.
---
 src/sqrid/boundedint.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..da9679d 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -307,55 +307,55 @@ macro_rules! boundedint_type_create {
 
 /// A bounded u8
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU8<const MIN: u8, const MAX: u8>(pub u8);
+pub struct BoundedU8<const MIN: u8, const MAX: u8>(u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU16<const MIN: u16, const MAX: u16>(pub u16);
+pub struct BoundedU16<const MIN: u16, const MAX: u16>(u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU32<const MIN: u32, const MAX: u32>(pub u32);
+pub struct BoundedU32<const MIN: u32, const MAX: u32>(u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU64<const MIN: u64, const MAX: u64>(pub u64);
+pub struct BoundedU64<const MIN: u64, const MAX: u64>(u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU128<const MIN: u128, const MAX: u128>(pub u128);
+pub struct BoundedU128<const MIN: u128, const MAX: u128>(u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedIsize<const MIN: isize, const MAX: isize>(pub isize);
+pub struct BoundedIsize<const MIN: isize, const MAX: isize>(isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI8<const MIN: i8, const MAX: i8>(pub i8);
+pub struct BoundedI8<const MIN: i8, const MAX: i8>(i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI16<const MIN: i16, const MAX: i16>(pub i16);
+pub struct BoundedI16<const MIN: i16, const MAX: i16>(i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI32<const MIN: i32, const MAX: i32>(pub i32);
+pub struct BoundedI32<const MIN: i32, const MAX: i32>(i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI64<const MIN: i64, const MAX: i64>(pub i64);
+pub struct BoundedI64<const MIN: i64, const MAX: i64>(i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI128<const MIN: i128, const MAX: i128>(pub i128);
+pub struct BoundedI128<const MIN: i128, const MAX: i128>(i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From 4b03e60b6b9bb5d5fba08eda6a9b6d75d0db6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 16/18] fix: keep the default of bounded integers within bounds

---
 src/sqrid/boundedint.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index da9679d..521e19f 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -259,6 +259,13 @@ macro_rules! boundedint_type_create {
             }
         }
 
+        impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
+            /// The value closest to 0 that is within bounds
+            fn default() -> Self {
+                Self((0 as $type).clamp(MIN, MAX))
+            }
+        }
+
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
             fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                 write!(f, "{}", self.0)
@@ -306,56 +313,56 @@ macro_rules! boundedint_type_create {
 }
 
 /// A bounded u8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU8<const MIN: u8, const MAX: u8>(u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU16<const MIN: u16, const MAX: u16>(u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU32<const MIN: u32, const MAX: u32>(u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU64<const MIN: u64, const MAX: u64>(u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU128<const MIN: u128, const MAX: u128>(u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedIsize<const MIN: isize, const MAX: isize>(isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI8<const MIN: i8, const MAX: i8>(i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI16<const MIN: i16, const MAX: i16>(i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI32<const MIN: i32, const MAX: i32>(i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI64<const MIN: i64, const MAX: i64>(i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI128<const MIN: i128, const MAX: i128>(i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From d3eabc5c4be9e3140838f96c97df53c075689b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 17/18] fix: mark positions as visited before expanding them in
 BfIterator

---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ccf25c3 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 9c834f8bf80351aa81377ffa38cb012e0a675a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 18/18] fix: don't create out-of-bounds bounded integers from
 bool

---
 src/sqrid/boundedint.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index 521e19f..7060b52 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -257,6 +257,14 @@ macro_rules! boundedint_type_create {
                     .map(|v| Self(v))
                     .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))
             }
+
+            // These don't use `one`, as 1 itself may not be within bounds:
+            fn inc(self) -> Option<Self> {
+                self.0.checked_add(1).and_then(|v| Self::new(v).ok())
+            }
+            fn dec(self) -> Option<Self> {
+                self.0.checked_sub(1).and_then(|v| Self::new(v).ok())
+            }
         }
 
         impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
@@ -285,8 +293,9 @@ macro_rules! boundedint_type_create {
         }
 
         impl<const MIN: $type, const MAX: $type> From<bool> for $name<MIN, MAX> {
+            /// Convert from 0 or 1; panics if the value is not within bounds
             fn from(value: bool) -> Self {
-                $name(value.into())
+                Self::new_unwrap(value.into())
             }
         }
 
-- 
2.43.0

