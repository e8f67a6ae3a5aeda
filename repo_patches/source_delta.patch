From fb0277c01b42b710bf16e7f1097310e5687fd39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:58 +0000
Subject: [PATCH 1/7] Add simulation seam for symbol producers, behind
 cfg(clarith_sim)

A simulator can stand in for the producer of a symbol sequence.
Compiled only with --cfg clarith_sim; nothing changes without it.
---
 src/lib.rs |  3 +++
 src/sim.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..970a60c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,6 +31,9 @@ mod strategy;
 
 pub mod protocol;
 
+#[cfg(clarith_sim)]
+pub mod sim;
+
 use crate::strategy::Strategy;
 use std::cmp::Ordering;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..a672645
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,56 @@
+/*
+ * Copyright 2019 Rafael Lorandi <coolparadox@gmail.com>
+ *
+ * This file is part of clarith, a library for performing arithmetic
+ * in continued logarithm representation.
+ *
+ * clarith is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * clarith is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with clarith.  If not, see <http://www.gnu.org/licenses/>
+ */
+
+//! Seam for deterministic simulation, only compiled with `--cfg clarith_sim`.
+//!
+//! Lets a simulator stand in for the producer of a symbol sequence.
+
+use crate::protocol;
+use crate::strategy::Strategy;
+use crate::Clog;
+
+/// What a simulated producer does when it is asked for the next symbol.
+pub enum Reply {
+    /// Deliver a symbol, or None at the end of the sequence.
+    Symbol(Option<protocol::Reduction>),
+    /// Let another producer take over from here.
+    Handover(Producer),
+}
+
+/// A simulated producer.
+pub type Producer = Box<dyn FnMut() -> Reply>;
+
+struct Simulated(Producer);
+
+impl Strategy for Simulated {
+    fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
+        match (self.0)() {
+            Reply::Symbol(symbol) => Ok(symbol),
+            Reply::Handover(producer) => Err(Box::new(Simulated(producer))),
+        }
+    }
+}
+
+/// Construct a number between zero and one out of a simulated producer.
+pub fn clog(producer: Producer) -> Clog {
+    Clog {
+        strategy: Box::new(Simulated(producer)),
+    }
+}
-- 
2.43.0


From 280a851e073e515d02c933c6b4dc8d35c3d92d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:15 +0000
Subject: [PATCH 2/7] fix: refuse transformations whose denominator is zero
 everywhere

Such a transformation was taken for a huge number: it delivered a leading
turn and then an endless run of amplifications.  It now panics with
"division by zero", as ratios do.
---
 src/strategy/combine.rs     | 4 ++++
 src/strategy/homographic.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..3dbf3a3 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -757,6 +757,10 @@ pub fn new(
         };
     }
 
+    if e == 0 && f == 0 && g == 0 && h == 0 {
+        panic!("division by zero");
+    }
+
     if let Number::Special(special) = x {
         match special {
             protocol::Special::NegOne => as_homographic(
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..9c4949a 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From fdc1b6fdc9acb0bbb814310f88e2312d96d27dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:15 +0000
Subject: [PATCH 3/7] fix: do not print coefficients to standard output

The library wrote a debug line on every step of a one-operand result, and
panicked when standard output was closed.
---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 9c4949a..2368b4c 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1088,8 +1088,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1141,8 +1139,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From 50b5dbd86f7b9b4b75479b6cb16c427c05ae1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:15 +0000
Subject: [PATCH 4/7] fix: compare symbols only when the primers are equal

Symbols of both numbers were read even when their primers had already
decided, which never returned for numbers agreeing on all symbols and could
fail for reasons that do not matter to the result.
---
 src/compare.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compare.rs b/src/compare.rs
index 192438d..9fb2861 100644
--- a/src/compare.rs
+++ b/src/compare.rs
@@ -297,11 +297,13 @@ fn compare_others(
     p2: Option<protocol::Primer>,
     c2: Clog,
 ) -> Ordering {
-    compare_primers(&p1, &p2).then(compare_clogs(
-        c1,
-        c2,
-        p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
-    ))
+    compare_primers(&p1, &p2).then_with(|| {
+        compare_clogs(
+            c1,
+            c2,
+            p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
+        )
+    })
 }
 
 fn compare_primers(p1: &Option<protocol::Primer>, p2: &Option<protocol::Primer>) -> Ordering {
-- 
2.43.0


From b3e898bed58fcf1c5505f8169643f04d25a819de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:09 +0000
Subject: [PATCH 5/7] fix: accept the most negative integer as a term of a
 ratio

Its magnitude is representable as an unsigned integer, but was computed by a
negation that overflows.
---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 970a60c..87f154e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,8 +90,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.unsigned_abs(),
+            den.unsigned_abs(),
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..8935831 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.unsigned_abs(),
+        den.unsigned_abs(),
     )
 }
 
-- 
2.43.0


From 97dc39d016bbd5bfb36948b672bedb1f225d5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:21 +0000
Subject: [PATCH 6/7] fix: check negations for overflow

Negating the most negative integer wrapped silently in builds without
overflow checks and changed the sign of the result.
---
 src/strategy/combine.rs     | 24 ++++++++++++------------
 src/strategy/homographic.rs | 16 ++++++++--------
 src/strategy/support.rs     | 22 +++++++++++-----------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 3dbf3a3..1013804 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
@@ -1110,10 +1110,10 @@ impl Combine {
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.a = -self.a;
-        self.b = -self.b;
-        self.c = -self.c;
-        self.d = -self.d;
+        self.a = self.a.checked_neg().unwrap();
+        self.b = self.b.checked_neg().unwrap();
+        self.c = self.c.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 2368b4c..27717ae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -889,12 +889,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
@@ -968,16 +968,16 @@ impl Homographic {
     }
 
     fn ground(&mut self) -> protocol::Primer {
-        self.dx = -self.dx;
-        self.d = -self.d;
+        self.dx = self.dx.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         swap(&mut self.nx, &mut self.dx);
         swap(&mut self.n, &mut self.d);
         protocol::Primer::Ground
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.nx = -self.nx;
-        self.n = -self.n;
+        self.nx = self.nx.checked_neg().unwrap();
+        self.n = self.n.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..07b67e7 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -56,9 +56,9 @@ pub fn less_than_zero(n: isize, d: isize) -> bool {
 
 pub fn greater_than_minus_one(n: isize, d: isize) -> bool {
     if d > 0 {
-        n > -d
+        n > d.checked_neg().unwrap()
     } else if d < 0 {
-        n < -d
+        n < d.checked_neg().unwrap()
     } else {
         n > 0
     }
@@ -66,9 +66,9 @@ pub fn greater_than_minus_one(n: isize, d: isize) -> bool {
 
 pub fn less_than_minus_one(n: isize, d: isize) -> bool {
     if d > 0 {
-        n < -d
+        n < d.checked_neg().unwrap()
     } else if d < 0 {
-        n > -d
+        n > d.checked_neg().unwrap()
     } else {
         n < 0
     }
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
@@ -227,5 +227,5 @@ pub fn equal_to_one(n: isize, d: isize) -> bool {
 }
 
 pub fn equal_to_minus_one(n: isize, d: isize) -> bool {
-    d != 0 && n == -d
+    d != 0 && n == d.checked_neg().unwrap()
 }
-- 
2.43.0


From f184b321f7d0da4d226148732e5d025e32e19600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:17 +0000
Subject: [PATCH 7/7] fix: keep failing after a symbol could not be extracted

A panic in the middle of an extraction leaves a number inconsistent.  A caller
that caught it and went on received wrong symbols.
---
 src/lib.rs      | 15 ++++++++++-----
 src/strategy.rs |  9 +++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 87f154e..029c3f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,11 +48,16 @@ impl Clog {
      * If self is one half, no symbol is returned.
      */
     pub fn egest(&mut self) -> Option<protocol::Reduction> {
-        match self.strategy.egest() {
-            Ok(reduction) => reduction,
-            Err(new_strategy) => {
-                self.strategy = new_strategy;
-                self.egest()
+        // A strategy that panics may be left inconsistent, so it only returns to its place
+        // after success.
+        let mut strategy = std::mem::replace(&mut self.strategy, Box::new(strategy::Failed));
+        loop {
+            match strategy.egest() {
+                Ok(reduction) => {
+                    self.strategy = strategy;
+                    return reduction;
+                }
+                Err(new_strategy) => strategy = new_strategy,
             }
         }
     }
diff --git a/src/strategy.rs b/src/strategy.rs
index 9a7c4ad..08b599e 100644
--- a/src/strategy.rs
+++ b/src/strategy.rs
@@ -29,3 +29,12 @@ use crate::protocol;
 pub trait Strategy {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>>;
 }
+
+/// What remains of a strategy that did not survive the extraction of a symbol.
+pub struct Failed;
+
+impl Strategy for Failed {
+    fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
+        panic!("extraction of a symbol has failed before");
+    }
+}
-- 
2.43.0

