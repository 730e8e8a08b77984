From 2a5246aabe34827a756a4c9800b63547dd4e1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:01 +0000
Subject: [PATCH 001/116] fix: cache the line, not the whole buffer, for
 whole-line sort keys

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..687bad8 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -444,7 +444,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From 26d2728397e24fc8770085031b291b1925680cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:01 +0000
Subject: [PATCH 002/116] fix: reverse sort keys only once when the cached
 prefixes are equal

---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 687bad8..b591b24 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            // comp_lines does its own reverse
+            return self.comp_lines(left.get(base), right.get(base));
         };
         self.reverse(x)
     }
-- 
2.43.0


From a71ba420d5206ffe1bfd82690b3e96f6b556d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:01 +0000
Subject: [PATCH 003/116] fix: sort values that differ only by trailing zero
 bytes

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index b591b24..446caea 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1588,7 +1588,8 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        // with a trailing zero byte, the value can't be told from its zero padding
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1614,7 +1615,8 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        // with a trailing zero byte, the value can't be told from its zero padding
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From d11d278b47e367b3d1db41fc91bcdc83f310c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:01 +0000
Subject: [PATCH 004/116] fix: numeric sort keys must not be ordered by an f64
 that parses differently

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 446caea..8009899 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1658,8 +1658,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // f64 parses these values differently than num_cmp_signed does, so no caching
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From aa8c146ee4d1535ba1d97b73d0fe990de13d6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:29 +0000
Subject: [PATCH 005/116] fix: numeric comparison must see the fraction when
 only one side has one, and order zeros consistently

---
 src/comp.rs | 69 +++++++++++++----------------------------------------
 1 file changed, 17 insertions(+), 52 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8009899..8229768 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -648,40 +648,17 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
-fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
-        a = &a[1..];
-        b = &b[1..];
+/// digits after the decimal point, without trailing zeros. Empty if no decimal point.
+fn frac_digits(a: &[u8]) -> &[u8] {
+    if a.is_empty() || a[0] != b'.' {
+        return &[];
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
+    let a = &a[1..];
+    let mut len = a.iter().take_while(|x| x.is_ascii_digit()).count();
+    while len > 0 && a[len - 1] == b'0' {
+        len -= 1;
     }
+    &a[..len]
 }
 
 fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
@@ -693,25 +670,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
-    }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
-    }
-    if a[0] == b'.' && b[0] == b'.' {
-        return frac_cmp(a, b);
-    }
-    let tmp = a[0].cmp(&b[0]);
+    let tmp = a.first().cmp(&b.first());
 
     let mut log_a = 0;
     while !a.is_empty() && a[0].is_ascii_digit() {
@@ -731,7 +690,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         return log_a.cmp(&log_b);
     }
     if log_a == 0 {
-        return Ordering::Equal;
+        return frac_digits(a).cmp(frac_digits(b));
     }
     tmp
 }
@@ -754,6 +713,12 @@ fn num_cmp_signed(mut a: &[u8], mut b: &[u8]) -> Ordering {
         false
     };
 
+    if left_minus != right_minus
+        && num_cmp_unsigned(a, b"") == Ordering::Equal
+        && num_cmp_unsigned(b, b"") == Ordering::Equal
+    {
+        return Ordering::Equal; // -0 and 0
+    }
     if left_minus {
         if right_minus {
             return num_cmp_unsigned(b, a);
-- 
2.43.0


From 39662ae6898bdca0b7d730f3cb6d7553086eeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:29 +0000
Subject: [PATCH 006/116] fix: negative zero and zero are the same number when
 sorting

---
 src/num.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..9e5a4ba 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -116,6 +116,7 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    let d = if d == 0.0 { 0.0 } else { d }; // -0.0 == 0.0
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From 58c5f03d36be3feccaaa1a2b53f52ab531d5c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:18 +0000
Subject: [PATCH 007/116] fix: parsing a number with a huge exponent must not
 overflow or turn zero into NaN

---
 src/text.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..dd0cf63 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -713,8 +713,9 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent
+                    .saturating_mul(10)
+                    .saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
@@ -739,7 +740,9 @@ impl Text for [u8] {
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
                 _ => {
-                    ret *= libm::exp10(f64::from(exponent));
+                    if ret != 0.0 {
+                        ret *= libm::exp10(f64::from(exponent));
+                    }
                 }
             }
         }
-- 
2.43.0


From 321a240b4e21997e2d0eca3da057a4cc50336e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:20 +0000
Subject: [PATCH 008/116] fix: random sort must use a consistent ordering, or
 sorting panics

---
 src/comp.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8229768..16e59f3 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -28,6 +28,8 @@ use crate::num::{fcmp, ulp_to_ulong, Junk, JunkType, JunkVal};
 use crate::prelude::*;
 use crate::util::prerr_n;
 use lazy_static::lazy_static;
+use std::collections::hash_map::RandomState;
+use std::hash::BuildHasher;
 use std::sync::Mutex;
 
 /// method of comparing two slices
@@ -1437,34 +1439,36 @@ impl LineCompList {
     }
 }
 
+/// Order by a randomly keyed hash, so that the ordering is random but consistent
 #[derive(Default, Debug)]
-struct CompareRandom {}
+struct CompareRandom {
+    state: RandomState,
+    value: u64,
+}
 impl CompareRandom {
     fn new() -> Self {
         Self::default()
     }
-    fn ord(&self) -> Ordering {
-        if fastrand::bool() {
-            Ordering::Less
-        } else {
-            Ordering::Greater
-        }
-    }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.state.hash_one(left).cmp(&self.state.hash_one(right))
     }
-    fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
+        self.comp(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
-    fn set(&mut self, _value: &[u8]) {}
-    fn comp_self(&self, _right: &[u8]) -> Ordering {
-        self.ord()
+    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
+        item.cache = self.state.hash_one(value);
+        item.set_complete();
     }
-    fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn set(&mut self, value: &[u8]) {
+        self.value = self.state.hash_one(value);
+    }
+    fn comp_self(&self, right: &[u8]) -> Ordering {
+        self.value.cmp(&self.state.hash_one(right))
+    }
+    fn equal_self(&self, right: &[u8]) -> bool {
+        self.value == self.state.hash_one(right)
     }
 }
 
-- 
2.43.0


From 8274431c03f430738b625e1b1bcc763411754b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:40 +0000
Subject: [PATCH 009/116] fix: sort must keep every line when the input is
 bigger than the memory budget

---
 src/sort.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..89d426d 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -393,10 +393,12 @@ impl Sorter {
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
-        let sz = self.prepare(in_data.len());
-        if sz != in_data.len() {
-            eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
-            return err!("Badness");
+        if self.prepare(in_data.len()) < in_data.len() {
+            self.spill()?;
+            if self.prepare(in_data.len()) < in_data.len() {
+                self.data.reserve(in_data.len());
+                self.prepare(in_data.len());
+            }
         }
         self.data[self.data_used..self.data_used + in_data.len()].copy_from_slice(in_data);
         self.data_used += in_data.len();
@@ -409,7 +411,12 @@ impl Sorter {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
-            let sz = self.prepare(SIZE);
+            let mut sz = self.prepare(SIZE);
+            if sz == 0 {
+                // the whole buffer is part of a single line
+                self.data.reserve(SIZE);
+                sz = self.prepare(SIZE);
+            }
             debug_assert!(sz > 0);
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
             if nbytes == 0 {
@@ -422,12 +429,19 @@ impl Sorter {
             self.data_used += nbytes;
             // calc new stuff
             if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
+                self.spill()?;
             }
         }
     }
+    /// write all complete lines to a temporary file, to make room for more
+    fn spill(&mut self) -> Result<()> {
+        self.calc();
+        if self.ptrs.is_empty() {
+            return Ok(());
+        }
+        self.do_sort();
+        self.write_tmp()
+    }
     /// Populate 'ptrs' from 'data'
     fn calc(&mut self) {
         self.ptrs.clear();
@@ -454,9 +468,10 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 90128eef3f4d83f9e2c51baa05dc91dc8d607ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:42 +0000
Subject: [PATCH 010/116] fix: honour the alternate sort and merge algorithm
 settings when sorting

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 89d426d..71868f7 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -298,6 +298,7 @@ impl SortConfig {
     ) -> Result<()> // maybe return some useful stats?
     {
         let mut s = Sorter::new(cmp, 500_000_000, unique);
+        s.config = *self;
         for fname in files {
             s.add_file(fname, w)?;
         }
-- 
2.43.0


From bfbb7838f6d6f62a575ff616cbdddaad15668326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 011/116] fix: merging must keep equal lines in file order

---
 src/sort.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sort.rs b/src/sort.rs
index 71868f7..b7faf4b 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -22,8 +22,10 @@ struct MergeContext<'a> {
 }
 impl MergeContext<'_> {
     fn compare(&mut self, a: usize, b: usize) -> Ordering {
+        // equal lines come out in file order
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
+            .then(a.cmp(&b))
             .reverse()
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
-- 
2.43.0


From f0fc877ba7b6db1209dc038c9a0b49f49584fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:01 +0000
Subject: [PATCH 012/116] fix: merge resolves named keys, checks headers, ends
 every line, and never mistakes temporary data for a header

---
 src/sort.rs | 130 ++++++++++++++++++++++++----------------------------
 1 file changed, 60 insertions(+), 70 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index b7faf4b..3dc9caa 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -9,7 +9,7 @@ fancier sort
 
 use crate::comp::Item;
 use crate::prelude::*;
-use crate::util::{copy, get_reader, is_cdx, make_header, HeaderChecker};
+use crate::util::{get_reader, is_cdx, make_header, HeadMode, HeaderChecker, TextFileMode};
 use binary_heap_plus::BinaryHeap;
 use std::cell::RefCell;
 //use std::mem;
@@ -43,60 +43,61 @@ pub struct SortConfig {
 }
 
 impl SortConfig {
-    /// merge all the files into w, using tmp
-    pub fn merge_t(
+    /// merge all the temporary files into w
+    fn merge_tmp(
         &self,
         in_files: &[String],
         cmp: &mut LineCompList,
         w: impl Write,
         unique: bool,
-        tmp: &TempDir,
     ) -> Result<()> {
-        eprintln!("Merging");
-        if self.alt_merge {
-            self.merge_t1(in_files, cmp, w, unique, tmp)
-        } else {
-            self.merge_t2(in_files, cmp, w, unique, tmp)
+        // temporary files never have headers, no matter what the first line looks like
+        let text = TextFileMode {
+            head_mode: HeadMode::No,
+            ..TextFileMode::default()
+        };
+        let mut open = Vec::with_capacity(in_files.len());
+        for x in in_files {
+            open.push(Reader::new_open(x, &text)?);
         }
+        self.merge_readers(open, cmp, w, unique)
     }
 
-    /// merge all the files into w, using tmp
-    pub fn merge_t2(
+    /// merge all the files into w
+    fn merge_readers(
         &self,
-        in_files: &[String],
+        mut open: Vec<Reader>,
         cmp: &mut LineCompList,
-        mut w: impl Write,
+        w: impl Write,
         unique: bool,
-        _tmp: &TempDir,
     ) -> Result<()> {
-        if in_files.is_empty() {
+        if open.is_empty() {
             return Ok(());
         }
-        if in_files.len() == 1 && !unique {
-            let r = get_reader(&in_files[0])?;
-            return copy(r.0, w);
-        }
-        let mc = Rc::new(RefCell::new(MergeContext {
-            open: Vec::with_capacity(in_files.len()),
-            cmp,
-        }));
-        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
-        {
-            let mut mcm = mc.borrow_mut();
-            for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
-            }
-            if !mcm.cmp.need_split() {
-                for x in &mut mcm.open {
-                    x.do_split(false);
-                }
-            }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
+        if !cmp.need_split() {
+            for x in &mut open {
+                x.do_split(false);
             }
         }
-        for i in 0..in_files.len() {
+        if self.alt_merge {
+            self.merge_t1(open, cmp, w, unique)
+        } else {
+            self.merge_t2(open, cmp, w, unique)
+        }
+    }
+
+    /// merge all the files into w
+    fn merge_t2(
+        &self,
+        open: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        let num_files = open.len();
+        let mc = Rc::new(RefCell::new(MergeContext { open, cmp }));
+        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
+        for i in 0..num_files {
             if !mc.borrow().open[i].is_done() {
                 heap.push(i);
             }
@@ -138,36 +139,14 @@ impl SortConfig {
         Ok(())
     }
 
-    /// merge all the files into w, using tmp
-    pub fn merge_t1(
+    /// merge all the files into w
+    fn merge_t1(
         &self,
-        in_files: &[String],
+        mut open_files: Vec<Reader>,
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
-        _tmp: &TempDir,
     ) -> Result<()> {
-        if in_files.is_empty() {
-            return Ok(());
-        }
-        if in_files.len() == 1 && !unique {
-            let r = get_reader(&in_files[0])?;
-            return copy(r.0, w);
-        }
-        let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
-        for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
-        }
-        if !cmp.need_split() {
-            for x in &mut open_files {
-                x.do_split(false);
-            }
-        }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
-
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
         if unique {
@@ -207,15 +186,26 @@ impl SortConfig {
         &self,
         files: &[String],
         cmp: &mut LineCompList,
-        w: impl Write,
+        mut w: impl Write,
         unique: bool,
     ) -> Result<()> {
-        let tmp = TempDir::new()?;
-        if self.alt_merge {
-            self.merge_t1(files, cmp, w, unique, &tmp)
-        } else {
-            self.merge_t2(files, cmp, w, unique, &tmp)
+        let mut open = Vec::with_capacity(files.len());
+        let mut checker = HeaderChecker::new();
+        let mut first = true;
+        for x in files {
+            let f = Reader::new_open2(x)?;
+            if !f.is_empty() {
+                if checker.check_file(&f, x)? {
+                    f.write_header(&mut w)?;
+                }
+                if first {
+                    cmp.lookup(&f.names())?;
+                    first = false;
+                }
+            }
+            open.push(f);
         }
+        self.merge_readers(open, cmp, w, unique)
     }
     /*
         /// given two file names, merge them into output
@@ -507,7 +497,7 @@ impl Sorter {
         } else {
             self.write_tmp()?;
             self.config
-                .merge_t(&self.tmp_files, &mut self.cmp, w, self.unique, &self.tmp)?;
+                .merge_tmp(&self.tmp_files, &mut self.cmp, w, self.unique)?;
         }
         Ok(())
     }
-- 
2.43.0


From 079d348bb0f9aa0bed0035501d67d6c05af7bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:03 +0000
Subject: [PATCH 013/116] fix: sort check resolves named keys and stops after
 the requested number of reports

---
 src/bin/cdx/sort_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..0c9a5c5 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -53,11 +53,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if check {
         let mut reported = 0;
-        for x in &files {
+        'files: for x in &files {
             let mut f = Reader::new_open(x, &settings.text_in)?;
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
@@ -65,7 +66,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 if comp_check(&f, &mut comp, unique) {
                     reported += 1;
                     if reported >= num_checks {
-                        break;
+                        break 'files;
                     }
                 }
             }
-- 
2.43.0


From 1715de4dc686970499d2214661415727639e3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:44 +0000
Subject: [PATCH 014/116] fix: recognize headers and compressed input even when
 the first read is short

---
 src/util.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..41bdfdd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1252,14 +1252,24 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
+    let mut outer = buf_reader(inner)?;
     let start = outer.fill_buf()?;
     if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+        outer = buf_reader(Box::new(MultiGzDecoder::new(outer)))?;
     }
     Ok(Infile::new(outer, name))
 }
 
+/// Make a BufReader that starts with at least four buffered bytes, if there are that many,
+/// so that the start of the file is recognized no matter how few bytes each read returns.
+fn buf_reader(mut inner: Box<dyn Read>) -> Result<io::BufReader<Box<dyn Read>>> {
+    let mut start = Vec::with_capacity(4);
+    inner.by_ref().take(4).read_to_end(&mut start)?;
+    Ok(io::BufReader::new(Box::new(
+        io::Cursor::new(start).chain(inner),
+    )))
+}
+
 #[derive(Debug, Default)]
 /// shared context for any input file type
 pub struct InfileContext {
-- 
2.43.0


From 2a2ddac3ac434f658fb5d82f45ee76c4dca76f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 015/116] fix: truncate existing output files

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 41bdfdd..cc27abd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1207,7 +1207,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 5d551bcdfbe4234c8d4b56244458c937e016b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:56 +0000
Subject: [PATCH 016/116] fix: start counting lines and bytes when a reader
 opens a file

---
 src/util.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index cc27abd..245c307 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1598,7 +1598,16 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.curr = 0;
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
+        } else {
+            0
+        };
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From c574fa11affbbbb09ff42767cc30d226387c8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:41 +0000
Subject: [PATCH 017/116] fix: uniq without a key compares whole lines, rather
 than calling all lines equal

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..4126d9c 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -187,6 +187,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
 
+    if comp.is_empty() {
+        comp.add("")?;
+    }
     assert_eq!(files.len(), 1);
 
     let mut f = Reader::new(&settings.text_in);
-- 
2.43.0


From 03c52c6fa921c65bae1ff4e5e6befd0a561a55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:41 +0000
Subject: [PATCH 018/116] fix: uniq must split lines when only the aggregators
 or --which need columns

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 4126d9c..9ccbe21 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -232,7 +232,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || !agg.is_empty() || count.comp.need_split());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From e5b6b6e79cee1f115fb8ad603519a520bb65e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:42 +0000
Subject: [PATCH 019/116] fix: uniq --agg-help prints the help rather than
 panicking

---
 src/bin/cdx/uniq_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 9ccbe21..647d9b7 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -1,4 +1,5 @@
 use crate::prelude::*;
+use cdx::agg::AggMaker;
 use cdx::comp::{CompMaker, LineComp};
 use cdx::prelude::*;
 
@@ -182,6 +183,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
-- 
2.43.0


From 7d98c5b82261dec53bf8a5806bbee189542de7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:59 +0000
Subject: [PATCH 020/116] fix: report failure when output could not be written,
 even at the final flush

---
 src/bin/cdx/main.rs | 11 ++++++++++-
 src/util.rs         | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/main.rs b/src/bin/cdx/main.rs
index f617e94..dfe5941 100644
--- a/src/bin/cdx/main.rs
+++ b/src/bin/cdx/main.rs
@@ -1,6 +1,7 @@
 use cdx::prelude::*;
-use cdx::util::{silent, suppress};
+use cdx::util::{silent, suppress, write_failed};
 use std::env;
+use std::io;
 
 pub mod args;
 mod binsearch_main;
@@ -43,6 +44,14 @@ fn main() {
             std::process::exit(1);
         }
         Ok(()) => {
+            let flushed = match io::stdout().flush() {
+                Ok(()) => true,
+                Err(e) => e.kind() == io::ErrorKind::BrokenPipe,
+            };
+            if write_failed() || !flushed {
+                eprintln!("Error\tFailed to write all of the output");
+                std::process::exit(1);
+            }
             std::process::exit(0);
         }
     }
diff --git a/src/util.rs b/src/util.rs
index 245c307..46e767f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,7 @@ use std::fmt::Write as _;
 use std::io;
 use std::ops::{Deref, DerefMut};
 use std::str;
+use std::sync::atomic::{self, AtomicBool};
 // use tokio_stream::StreamExt;
 
 /// Shorthand for returning an error Result
@@ -1199,6 +1200,38 @@ impl AsMut<io::BufWriter<Box<dyn Write>>> for Outfile {
     }
 }
 
+static WRITE_FAILED: AtomicBool = AtomicBool::new(false);
+
+/// Has any write to any Outfile failed? Includes failures while an Outfile was being dropped,
+/// which can't be reported in any other way.
+#[must_use]
+pub fn write_failed() -> bool {
+    WRITE_FAILED.load(atomic::Ordering::Relaxed)
+}
+
+/// Remember if any write fails
+struct CheckedWrite(Box<dyn Write>);
+
+impl CheckedWrite {
+    fn check<T>(res: io::Result<T>) -> io::Result<T> {
+        if let Err(e) = &res {
+            if e.kind() != io::ErrorKind::Interrupted && e.kind() != io::ErrorKind::BrokenPipe {
+                WRITE_FAILED.store(true, atomic::Ordering::Relaxed);
+            }
+        }
+        res
+    }
+}
+
+impl Write for CheckedWrite {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        Self::check(self.0.write(buf))
+    }
+    fn flush(&mut self) -> io::Result<()> {
+        Self::check(self.0.flush())
+    }
+}
+
 /// Make an Outfile from a file name
 pub fn get_writer(name: &str) -> Result<Outfile> {
     let inner: Box<dyn Write> = {
@@ -1210,6 +1243,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
             Box::new(fs::File::create(name)?)
         }
     };
+    let inner: Box<dyn Write> = Box::new(CheckedWrite(inner));
     Ok(Outfile::new(io::BufWriter::new(inner), name))
 }
 
-- 
2.43.0


From 3c3cae04e3ccd712ca31847ce3f93e3b9c7411a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:11 +0000
Subject: [PATCH 021/116] fix: amean must print the mean, not the total

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..a534761 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1061,7 +1061,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From cf887f53910c121db85b116ac4353df8ea34f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:11 +0000
Subject: [PATCH 022/116] fix: max must be one of the values, even if all
 values are less than nothing

---
 src/agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index a534761..e16413b 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1072,6 +1072,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1079,12 +1080,18 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
+        if self.empty {
+            self.empty = false;
+            self.val.extend_from_slice(data);
+            return;
+        }
         if self.comp.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
@@ -1096,6 +1103,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From ff92a12f1bbde5a1b2334f865f578ec33ce3b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 023/116] fix: honour 'rev' when comparing single values

---
 src/comp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 16e59f3..1187b27 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -155,14 +155,21 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // LineComp does the reverse
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.do_reverse(self.comp.comp(left, right))
+    }
+    const fn do_reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare two slices for equality
     #[must_use]
@@ -180,7 +187,7 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.do_reverse(self.comp.comp_self(right))
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From 59aa5ff7e9be6d3214199caf4961fe4a07bfde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:23 +0000
Subject: [PATCH 024/116] fix: integer size suffixes are powers, not
 exclusive-or

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 9e5a4ba..c48ae87 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -264,11 +264,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024_usize.pow(2),
+    1024_usize.pow(3),
+    1024_usize.pow(4),
+    1024_usize.pow(5),
+    1024_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
@@ -286,11 +286,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000_usize.pow(2),
+    1000_usize.pow(3),
+    1000_usize.pow(4),
+    1000_usize.pow(5),
+    1000_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From 568ba9cc7712964dd95583befb89717216ca867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:50 +0000
Subject: [PATCH 025/116] fix: parsing an integer that does not fit must not
 overflow

---
 src/text.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index dd0cf63..00e4467 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -631,14 +631,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -659,14 +659,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
         ret *= neg;
-- 
2.43.0


From 50fb39a9cdbbcf7eec326302ff6912bb545c5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:54 +0000
Subject: [PATCH 026/116] fix: accept a merge delimiter as the last piece of
 the specification

---
 src/agg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg.rs b/src/agg.rs
index e16413b..583ec16 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -750,6 +750,7 @@ impl Merge {
                     }
                     sp = &sp[1..];
                 }
+                continue;
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From 11552f1534a32d275a82034d3e925af2ff269282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 027/116] fix: invented column names must be separated by the
 column delimiter in use

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 46e767f..8770616 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1367,7 +1367,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(char::from(self.text.delim));
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From 14390ae634fcd13cc777f19091a5e08c01e856f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:05 +0000
Subject: [PATCH 028/116] fix: never write an invented header to the unmatched
 output of join

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 8770616..9138a01 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1721,7 +1721,9 @@ impl Reader {
     }
     /// write header
     pub fn write_header(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(self.cont.header.line.as_bytes())?;
+        if self.has_header() {
+            w.write_all(self.cont.header.line.as_bytes())?;
+        }
         Ok(())
     }
     /// write header
-- 
2.43.0


From 9637c73b95341ee66996833de6be662e45fc3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 029/116] fix: binsearch must not search the header line, and
 --sub-delim must work

---
 src/bin/cdx/binsearch_main.rs | 15 ++++++++-------
 src/binsearch.rs              |  5 +++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..4a23e88 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
@@ -156,26 +156,27 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        let data = m.data();
+        let (mut start, mut stop) = equal_range_n(data, &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(data, start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(data, stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &data[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(data, start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &data[start..end])?;
                 start = end;
             }
         }
diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..c7a3852 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -49,6 +49,11 @@ impl MemMap {
     pub fn get(&self) -> &[u8] {
         &self.map[..]
     }
+    /// get underlying memmap data, without the header
+    #[must_use]
+    pub fn data(&self) -> &[u8] {
+        &self.map[self.header_len..]
+    }
     /// get column delimiter
     #[must_use]
     pub const fn get_delim(&self) -> u8 {
-- 
2.43.0


From a31dbca6633d2b742a4dbddac35b9b7cca660a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 030/116] fix: a value compared with whole lines must include
 the newline that the lines have

---
 src/comp.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 1187b27..2fcece7 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -28,6 +28,7 @@ use crate::num::{fcmp, ulp_to_ulong, Junk, JunkType, JunkVal};
 use crate::prelude::*;
 use crate::util::prerr_n;
 use lazy_static::lazy_static;
+use std::borrow::Cow;
 use std::collections::hash_map::RandomState;
 use std::hash::BuildHasher;
 use std::sync::Mutex;
@@ -386,6 +387,17 @@ impl LineComp {
     }
 }
 
+/// whole lines are compared with their newline, so add one if it is missing
+fn whole_line(line: &[u8]) -> Cow<'_, [u8]> {
+    if line.last() == Some(&b'\n') {
+        Cow::Borrowed(line)
+    } else {
+        let mut line = line.to_vec();
+        line.push(b'\n');
+        Cow::Owned(line)
+    }
+}
+
 /// compare the whole line with the [Compare]
 struct LineCompWhole {
     comp: Comp,
@@ -458,7 +470,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn set(&mut self, value: &[u8]) {
-        self.comp.set(value);
+        self.comp.set(&whole_line(value));
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
@@ -470,11 +482,11 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(&whole_line(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(&whole_line(right))
     }
 }
 
-- 
2.43.0


From 4e303129774835bcdcc261fa34c6c3256e55ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:21 +0000
Subject: [PATCH 031/116] fix: binary search must find the start of an empty
 line

---
 src/binsearch.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index c7a3852..92a621b 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -102,6 +102,14 @@ pub const fn find_start(data: &[u8], mut start: usize) -> usize {
     start
 }
 
+/// return the start of the line that contains `pos`, even if `pos` is its newline
+const fn find_line_start(data: &[u8], mut pos: usize) -> usize {
+    while (pos > 0) && (data[pos - 1] != b'\n') {
+        pos -= 1;
+    }
+    pos
+}
+
 /// 'start' should be the beginning of a line
 /// return the beginning of the previous line
 #[must_use]
@@ -109,10 +117,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
     if start <= 1 {
         return 0;
     }
-    if data[start - 1] != b'\n' {
-        return find_start(data, start);
-    }
-    find_start(data, start - 2)
+    find_line_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
@@ -157,7 +162,7 @@ pub fn lower_bound_n(data: &[u8], comp: &mut LineCompList) -> (usize, usize) {
         // if we hit end of buffer, back up from middle instead
         let stop = if start == end {
             let new_stop = start;
-            start = find_start(data, (end + begin - 1) / 2);
+            start = find_line_start(data, (end + begin - 1) / 2);
             new_stop
         } else {
             find_end(data, start)
@@ -193,7 +198,7 @@ pub fn upper_bound_n(data: &[u8], comp: &mut LineCompList) -> usize {
         // if we hit end of buffer, back up from middle instead
         let stop = if start == end {
             let new_stop = start;
-            start = find_start(data, (end + begin - 1) / 2);
+            start = find_line_start(data, (end + begin - 1) / 2);
             new_stop
         } else {
             find_end(data, start)
-- 
2.43.0


From 323f94cead924dfc3477c824deb7800352041471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:54 +0000
Subject: [PATCH 032/116] fix: binsearch --filename without a count shows the
 whole file name

---
 src/bin/cdx/binsearch_main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 4a23e88..aa340e4 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -174,7 +174,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
                 let end = find_end(data, start);
-                w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                if file.tail == 0 {
+                    w.write_all(f.as_bytes())?;
+                } else {
+                    w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                }
                 w.write_all(&[b'\t'])?;
                 write_all_nl(&mut w.0, &data[start..end])?;
                 start = end;
-- 
2.43.0


From 9c0ef0eeccb113ccc268ceabe45cd9ce36981cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 033/116] fix: a single column can be counted from the end,
 e.g. +1

---
 src/column.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..cd7139c 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1492,7 +1492,11 @@ impl NamedCol {
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            if spec.is_empty() {
+                return err!("'+' must be follwed by a number : {}", orig_spec);
+            }
+            ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From 695cd660a972d4740ee8d07dd74217a2ffa8e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 034/116] fix: column lists may contain matchers with commas,
 in any position

---
 src/column.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index cd7139c..f8a02b3 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,23 +799,27 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
-                let pos = find_close(spc)?;
-                self.add_one(&spc[..pos], negate, trans);
-                spc = &spc[pos..];
-                if spc.is_empty() {
-                    break;
-                }
-            } else if let Some((a, b)) = spc.split_once(',') {
-                self.add_one(a, negate, trans);
-                spc = b;
-            } else {
-                self.add_one(spc, negate, trans);
+            let len = Self::part_len(spc)?;
+            self.add_one(&spc[..len], negate, trans);
+            if len == spc.len() {
                 break;
             }
+            spc = &spc[len + 1..];
         }
         Ok(())
     }
+    /// length of the first part of the list, i.e. up to a comma that is not in parentheses
+    fn part_len(spec: &str) -> Result<usize> {
+        let mut len = 0;
+        while len < spec.len() {
+            match spec.as_bytes()[len] {
+                b',' => break,
+                b'(' => len += find_close(&spec[len..])?,
+                _ => len += 1,
+            }
+        }
+        Ok(len)
+    }
 
     /// Turn column name into column number
     /// To also handle numbers and ranges, use `lookup1`
@@ -909,12 +913,14 @@ impl ColumnSet {
             return err!("Empty Range {}", rng);
         }
         let (name, range) = match rng.split_once(':') {
-            None => ("", rng),
-            Some(x) => x,
+            Some(x) if !rng.starts_with('(') => x,
+            _ => ("", rng),
         };
 
-        let ch = range.first();
-        if ch == '(' {
+        if range.starts_with('(') {
+            if !range.ends_with(')') {
+                return err!("Malformed Range {}", rng);
+            }
             return Ok(Self::to_outcols(
                 &Self::match_range(fieldnames, &range[1..range.len() - 1])?,
                 name,
-- 
2.43.0


From 76e05e26d1e7bea72a0d51bde1aaa87810e0e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 035/116] fix: column +0 is out of bounds, and an empty column
 name is not found

---
 src/column.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index f8a02b3..e6f950a 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -860,14 +860,13 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
             }
         } else {
-            let ch = colname.first();
-            if ch.is_ascii_digit() && ch != '0' {
+            if colname.starts_with(|ch: char| ch.is_ascii_digit() && ch != '0') {
                 let n = colname.to_usize_whole(colname.as_bytes(), "column")?;
                 if n < 1 {
                     err!("Column {} out of bounds", colname)
-- 
2.43.0


From 232bcddab594f1ed61cfd6cad52d4b1527bc1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 036/116] fix: report a value that can not be transformed,
 rather than panicking

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e6f950a..17eb498 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1080,12 +1080,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1102,10 +1102,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From cee260c2d3884dff87d88886dd9664bb42ede424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:55 +0000
Subject: [PATCH 037/116] fix: leading white space must not add a space after
 the first character

---
 src/trans.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..47fefea 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -124,8 +124,8 @@ impl Trans for NormSpace {
             } else {
                 if need_space && !dst.is_empty() {
                     dst.push(b' ');
-                    need_space = false;
                 }
+                need_space = false;
                 dst.push(*x);
             }
         }
@@ -148,8 +148,8 @@ impl Trans for NormSpaceUtf8 {
             } else {
                 if need_space && !self.tmp.is_empty() {
                     self.tmp.push(' ');
-                    need_space = false;
                 }
+                need_space = false;
                 self.tmp.push(x);
             }
         }
-- 
2.43.0


From 566015e7772276eb6ad7be08ab2f504879de0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:55 +0000
Subject: [PATCH 038/116] fix: the first transform may be named by an alias

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 47fefea..3d13d4c 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -390,6 +390,7 @@ impl TransMaker {
     }
     /// Create a Trans from a trans spec and a pattern
     pub fn make2(trans: &str, pattern: &str) -> Result<Transform> {
+        Self::init()?;
         let mut spec = trans.to_string();
         if !pattern.is_empty() {
             spec.push(',');
-- 
2.43.0


From 371bb09ccc5d1437714a92fbc4bfec71b7f49d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:04 +0000
Subject: [PATCH 039/116] fix: quoted output must open and close the quotes
 around values that need them

---
 src/util.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9138a01..ef35f2e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -547,17 +547,21 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    let need_quote = buf
+        .iter()
+        .any(|ch| *ch == tab || *ch == eol || *ch == b'"');
+    if need_quote {
+        w.write_all(&[b'"'])?;
+    }
     for ch in buf {
         if *ch == b'"' {
             w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+        } else {
+            w.write_all(&[*ch])?;
         }
-        w.write_all(&[*ch])?;
+    }
+    if need_quote {
+        w.write_all(&[b'"'])?;
     }
     Ok(())
 }
-- 
2.43.0


From 13d9ba28e6846ca37fbf27679d175c5633bbd361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:04 +0000
Subject: [PATCH 040/116] fix: quoted input may have delimiters and quotes
 within the quotes

---
 src/util.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index ef35f2e..dfea80b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -659,28 +659,20 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     let mut last_was_quote = false;
     let mut in_quote = false;
     for ch in line {
-        if in_quote {
+        if *ch == b'"' {
             if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
-                continue;
+                // two quotes within a quoted string
+                tmp.push(*ch);
+                end += 1;
             }
-        } else if *ch == b'"' {
-            in_quote = true;
-            last_was_quote = true;
+            last_was_quote = in_quote;
+            in_quote = !in_quote;
             continue;
         }
+        last_was_quote = false;
 
         tmp.push(*ch);
-        if *ch == delim {
+        if *ch == delim && !in_quote {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
         }
-- 
2.43.0


From dfac98de1ab706d74834bd1cbfa58e2a77d95d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:04 +0000
Subject: [PATCH 041/116] fix: decoded lines keep their last column, even if
 empty, and end with a newline

---
 src/util.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index dfea80b..fcc7e5c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -614,10 +614,7 @@ pub const fn enslash(ch: u8) -> u8 {
 pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
+    let line = line.strip_suffix(b"\n").unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_slash = false;
@@ -641,19 +638,19 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
+    if last_was_slash {
+        tmp.push(b'\\');
+        end += 1;
     }
+    parts.push(FakeSlice { begin, end });
+    tmp.push(b'\n');
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
+    let line = line.strip_suffix(b"\n").unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_quote = false;
@@ -678,9 +675,8 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
+    tmp.push(b'\n');
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From ab6bc2d806fe1f1ff975f820304454ae89476af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:04 +0000
Subject: [PATCH 042/116] fix: lines copied to the output must be the lines as
 read, not as decoded

---
 src/util.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index fcc7e5c..64c4e0a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -778,7 +778,8 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        let line = self.line();
+        &line[..line.len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -790,6 +791,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -812,6 +815,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
@@ -1348,6 +1352,7 @@ impl InfileContext {
         if self.has_header {
             self.text.split_head(&mut self.header);
         }
+        line.orig.clear();
         self.is_done = self.text.read_line(file, &mut line.line)?;
         if self.is_done {
             return Ok(());
@@ -1597,14 +1602,12 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        self.curr_line().line_nl()
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        self.prev_line(n).line_nl()
     }
     /// get delimiter
     #[must_use]
@@ -1618,7 +1621,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1664,8 +1667,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].orig.clear();
         if self
             .cont
             .text
@@ -1703,12 +1707,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From 6a4ff90f2133b8e8e4f7a330a1a1912a88c28614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:32 +0000
Subject: [PATCH 043/116] fix: a header without columns must not underflow

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 17eb498..cfa7f79 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(|x| x.len() + 1).sum::<usize>()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From ae958ac26c431d4f600324046d390ab2765cfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:54 +0000
Subject: [PATCH 044/116] fix: an empty selection of columns must not add a
 delimiter

---
 src/column.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index cfa7f79..b3e915b 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -544,6 +544,10 @@ pub trait ColumnFun {
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()>;
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()>;
+    /// does this write no columns at all? Only valid after `lookup`
+    fn is_empty(&self) -> bool {
+        false
+    }
 }
 
 /// write a single column
@@ -1366,6 +1370,9 @@ impl ColumnFun for ReaderColumns {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.columns.lookup(fieldnames)
     }
+    fn is_empty(&self) -> bool {
+        self.columns.get_cols().is_empty()
+    }
 }
 
 /// A collection of `ColumnFun` writers
@@ -1414,7 +1421,7 @@ impl Writer {
     }
     /// Write the column values
     pub fn write(&mut self, w: &mut dyn Write, line: &TextLine) -> Result<()> {
-        let mut iter = self.v.iter_mut();
+        let mut iter = self.v.iter_mut().filter(|x| !x.is_empty());
         match iter.next() {
             None => {}
             Some(first) => {
-- 
2.43.0


From 77a0d6120fc2d51baa6459b186c1774ca8249335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 045/116] fix: glob must try every position after a star

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 00e4467..7eeb636 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From 1e43c24b12da055cf82d553252c53d1c350fb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 046/116] fix: the null modifier accepts empty values, rather
 than negating the match

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..5d5bdd2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,7 +1860,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From 84e408a5ba12acbf05fcda922e6accee2eb5e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 047/116] fix: case insensitive suffix match of an empty
 pattern must not underflow

---
 src/matcher.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 5d5bdd2..a15bfb2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,7 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    bcase_prefix(&haystack[haystack.len() - needle.len()..], needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From d09dd2159e1eb7e2710733758f41a94ee3e963d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 048/116] fix: case insensitive exact match must ignore the
 case of the target

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index a15bfb2..a03590c 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -748,7 +748,7 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.as_str().equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         buff.equal_insens_quick(&self.u_data)
-- 
2.43.0


From 6a2f71632378569b53e1296f3aed1d844c7aacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 049/116] fix: honour the not modifier wherever a matcher is
 used

---
 src/column.rs  |  2 +-
 src/matcher.rs | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index b3e915b..f17c846 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -888,7 +888,7 @@ impl ColumnSet {
         let mut ret = Vec::new();
         let c = MatchMaker::make(rng)?;
         for f in fieldnames.iter().enumerate() {
-            if c.smatch(f.1) {
+            if c.smatch_not(f.1) {
                 // allow case insensitive?
                 ret.push(f.0);
             }
diff --git a/src/matcher.rs b/src/matcher.rs
index a03590c..c2cc587 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1376,7 +1376,7 @@ impl MatcherList {
     }
     fn smatch_and(&self, buff: &str) -> bool {
         for x in &self.matchers {
-            if !x.smatch(buff) {
+            if !x.smatch_not(buff) {
                 return false;
             }
         }
@@ -1384,7 +1384,7 @@ impl MatcherList {
     }
     fn smatch_or(&self, buff: &str) -> bool {
         for x in &self.matchers {
-            if x.smatch(buff) {
+            if x.smatch_not(buff) {
                 return true;
             }
         }
@@ -1398,7 +1398,7 @@ impl MatcherList {
     }
     fn umatch_and(&self, buff: &[u8]) -> bool {
         for x in &self.matchers {
-            if !x.umatch(buff) {
+            if !x.umatch_not(buff) {
                 return false;
             }
         }
@@ -1406,7 +1406,7 @@ impl MatcherList {
     }
     fn umatch_or(&self, buff: &[u8]) -> bool {
         for x in &self.matchers {
-            if x.umatch(buff) {
+            if x.umatch_not(buff) {
                 return true;
             }
         }
@@ -1561,12 +1561,26 @@ impl Matcher {
             self.matcher.umatch(buff)
         }
     }
+    /// Are these characters ok, considering `negate`
+    #[must_use]
+    pub fn smatch_not(&self, buff: &str) -> bool {
+        self.negate ^ self.smatch(buff)
+    }
+    /// Are these bytes ok, considering `negate` and `string`
+    #[must_use]
+    pub fn umatch_not(&self, buff: &[u8]) -> bool {
+        if self.string {
+            self.smatch_not(&String::from_utf8_lossy(buff))
+        } else {
+            self.negate ^ self.umatch(buff)
+        }
+    }
     /// umatch or smatch, depending on self.string
     pub fn do_match(&self, buff: &[u8]) -> Result<bool> {
         if self.string {
-            Ok(self.smatch(std::str::from_utf8(buff)?))
+            Ok(self.smatch_not(std::str::from_utf8(buff)?))
         } else {
-            Ok(self.umatch(buff))
+            Ok(self.umatch_not(buff))
         }
     }
 
@@ -1576,12 +1590,12 @@ impl Matcher {
     pub fn do_match_safe(&self, buff: &[u8]) -> bool {
         if self.string {
             if let Ok(x) = std::str::from_utf8(buff) {
-                self.smatch(x)
+                self.smatch_not(x)
             } else {
                 false
             }
         } else {
-            self.umatch(buff)
+            self.umatch_not(buff)
         }
     }
 }
@@ -1874,6 +1888,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // the list as a whole is negated
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From 4da69a7c93c2183cfa3ca507e8cf8807351489a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 050/116] fix: matchers for groups of columns must see the
 determiner and the columns

---
 src/matcher.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index c2cc587..efa57a2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -272,6 +272,20 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// split "all,cols" or "atleast,42,cols" into Determiner and rest.
+    fn split(spec: &str) -> Result<(Self, &str)> {
+        let mut len = spec.find(',').unwrap_or(spec.len());
+        if spec[..len].starts_with("at") || spec[..len].starts_with("exactly") {
+            len += 1 + spec
+                .get(len + 1..)
+                .map_or(0, |x| x.find(',').unwrap_or(x.len()));
+            len = len.min(spec.len());
+        }
+        Ok((
+            Self::new(&spec[..len])?,
+            spec.get(len + 1..).unwrap_or(""),
+        ))
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -898,12 +912,14 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[1..len - 1];
+            let rest = spec.get(len + 1..).unwrap_or("");
+            let (det, cols) =
+                Determiner::split(cols).unwrap_or_else(|_| (Determiner::default(), cols));
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
                 rest,
@@ -1092,14 +1108,15 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
+        let (det, cols) = Determiner::split(cols)?;
+        if cols.is_empty() {
+            err!("ColumnGroup format is Determiner,ColumnSet")
+        } else {
             Ok(Self {
                 matcher: MatchMaker::make2(method, pattern)?,
-                col: ColumnSet::from_spec(b)?,
-                det: Determiner::new(a)?,
+                col: ColumnSet::from_spec(cols)?,
+                det,
             })
-        } else {
-            err!("ColumnGroup format is Determiner,ColumnSet")
         }
     }
 }
@@ -1938,8 +1955,8 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = spec.get(len + 1..).unwrap_or("");
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From f3d661abebd4d7feb969347d9312776e74627e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 051/116] fix: compare columns by a named operator, or with a
 one character column

---
 src/matcher.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index efa57a2..754b7b5 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -960,26 +960,22 @@ struct CompMatcher {
 impl CompMatcher {
     fn new(incol: &str, mut pattern: &str) -> Result<Self> {
         let target = NamedCol::new_from(incol)?;
-        if pattern.len() < 3 {
+        if pattern.len() < 2 {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let num = pattern
+            .find(|ch: char| !"<>=!".contains(ch))
+            .unwrap_or(pattern.len());
         let op;
-        if let Ok(o) = op1 {
-            pattern = &pattern[2..];
-            op = o;
+        if num > 0 {
+            op = pattern[..num].parse::<CompareOp>()?;
+            pattern = &pattern[num..];
+        } else if let Some((a, b)) = pattern.split_once('.') {
+            op = a.parse::<CompareOp>()?;
+            pattern = b;
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
-            if let Ok(o) = op1 {
-                pattern = &pattern[1..];
-                op = o;
-            } else if let Some((a, b)) = pattern.split_once('.') {
-                op = a.parse::<CompareOp>()?;
-                pattern = b;
-            } else {
-                return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
-            }
+            return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         let (col, rest) = ColGroup::new_with(pattern)?;
         let comp = CompMaker::make_comp(rest)?;
-- 
2.43.0


From f3c6a3dfba491a19820f7acb6c05851ae86a3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 052/116] fix: range specifications with two-character
 operators or two bounds

---
 src/util.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64c4e0a..b05ee25 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2209,8 +2209,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|==|!=|<|>)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
@@ -2250,8 +2250,8 @@ impl<'a> RangeSpec<'a> {
     fn new_trail(spec: &'a str) -> Result<(Self, usize)> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("(^|,)(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
-            static ref RE2: Regex = Regex::new("(^|,)(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
+                Regex::new("(^|,)(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)([^=].*)$").unwrap();
+            static ref RE2: Regex = Regex::new("(^|,)(<=|>=|==|!=|<|>)([^=].*)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("(^|,)(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("(^|,)(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
@@ -2327,11 +2327,7 @@ impl CheckLine {
         } else {
             Some(r.op2.unwrap().parse::<CompareOp>()?)
         };
-        self.val2 = if r.val2.is_none() {
-            None
-        } else {
-            Some(r.op2.unwrap().to_owned())
-        };
+        self.val2 = r.val2.map(str::to_owned);
         Ok(())
     }
     /// set from spec OP,Text
-- 
2.43.0


From cd25d13af999eece3a698a8b3c325492f1000ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 053/116] fix: compare columns by a named operator, with or
 without a dot

---
 src/matcher.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 754b7b5..8022b3b 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -971,9 +971,10 @@ impl CompMatcher {
         if num > 0 {
             op = pattern[..num].parse::<CompareOp>()?;
             pattern = &pattern[num..];
-        } else if let Some((a, b)) = pattern.split_once('.') {
-            op = a.parse::<CompareOp>()?;
-            pattern = b;
+        } else if let Some(name) = pattern.get(..2) {
+            op = name.parse::<CompareOp>()?;
+            pattern = &pattern[2..];
+            pattern = pattern.strip_prefix('.').unwrap_or(pattern);
         } else {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
-- 
2.43.0


From 2216ddc41ac5c22287ddef7d2fe292e3f1899899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:26 +0000
Subject: [PATCH 054/116] fix: verify must accept --report and --show-matchers

---
 src/bin/cdx/verify_main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..bd48d5a 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -48,7 +48,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             comp.add(&x.value)?;
         } else if x.name == "or" {
             list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +59,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From f4037cade351b5ee4dc27aec22c7533a0aaa6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:26 +0000
Subject: [PATCH 055/116] fix: verify must not ignore a bad last line

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bd48d5a..487a70a 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -113,6 +113,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 did_fail = true;
             }
             if f.getline()? {
+                if did_fail {
+                    fails += 1;
+                }
                 if last.is_some()
                     && !last.as_ref().unwrap().line_ok_verbose(
                         f.prev_line(1),
-- 
2.43.0


From 0ff63357d0b1eb6008e0b04702d0f9549eecd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:26 +0000
Subject: [PATCH 056/116] fix: verify reports the same line number for all
 kinds of failure

---
 src/bin/cdx/verify_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 487a70a..743dbda 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -103,7 +103,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
-- 
2.43.0


From 9b8cb5fb2517da8809830e10aa545ce3e3602d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:26 +0000
Subject: [PATCH 057/116] fix: verify must check both bounds of the first and
 last lines

---
 src/util.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index b05ee25..a1fbc01 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2342,12 +2342,21 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match (self.op2, &self.val2) {
+            (Some(op), Some(val)) => {
+                comp.set(val.as_bytes(), b',')?;
+                Ok(op.line_ok_verbose(line, comp, line_num))
+            }
+            _ => Ok(true),
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        let ret = self.op.line_ok(line, comp);
+        let ret = self.op.invert().line_ok(line, comp);
         if !ret {
             return Ok(false);
         }
@@ -2355,7 +2364,7 @@ impl CheckLine {
             None => Ok(true),
             Some(o) => {
                 comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
-                Ok(o.line_ok(line, comp))
+                Ok(o.invert().line_ok(line, comp))
             }
         }
     }
-- 
2.43.0


From 3a38e88f2ef70a981f1e651ead783c1213ddd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 058/116] fix: two quotes within an unquoted value mean one
 quote

---
 src/util.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a1fbc01..214d629 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -653,20 +653,19 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     let line = line.strip_suffix(b"\n").unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
     let mut in_quote = false;
-    for ch in line {
+    let mut iter = line.iter().peekable();
+    while let Some(ch) = iter.next() {
         if *ch == b'"' {
-            if last_was_quote {
-                // two quotes within a quoted string
-                tmp.push(*ch);
-                end += 1;
+            // two quotes mean one quote, unless the first one opens the column
+            let doubled = iter.peek() == Some(&&b'"');
+            if doubled && (in_quote || begin != end) {
+                iter.next();
+            } else {
+                in_quote = !in_quote;
+                continue;
             }
-            last_was_quote = in_quote;
-            in_quote = !in_quote;
-            continue;
         }
-        last_was_quote = false;
 
         tmp.push(*ch);
         if *ch == delim && !in_quote {
-- 
2.43.0


From 51f498fe819813b0ced65122901b5c6e1ecbd61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:02 +0000
Subject: [PATCH 059/116] fix: cat decides about padding by the last byte
 written, not by the first line

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..7fb460f 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From e6af8bd0b71b750842ec9685c826c323b772155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:02 +0000
Subject: [PATCH 060/116] fix: cat goes on to the next file after a file with
 nothing but a header

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 7fb460f..1c1932a 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
-- 
2.43.0


From d7eaf7d703fc770f780f363e6bfac0447ec8631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:30 +0000
Subject: [PATCH 061/116] fix: sample goes on to the next file after a file
 with nothing but a header

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
-- 
2.43.0


From 5e4ece17a79df5a35ddb387c8e063daf1e6619a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:30 +0000
Subject: [PATCH 062/116] fix: wc --columns goes on to the next file after a
 file with nothing but a header

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From a763023511d35ab42377e8f34981b598bc7e2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:30 +0000
Subject: [PATCH 063/116] fix: cgrep location columns use the column delimiter

---
 src/bin/cdx/cgrep_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..108b3ee 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, settings.text_out().delim, f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
-- 
2.43.0


From 5bfa7f6dc101909e324b3168795de3b59f388a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 064/116] fix: header checks must notice files without a
 header, and headers without ' CDX'

---
 src/bin/cdx/binsearch_main.rs |  2 +-
 src/bin/cdx/cat_main.rs       |  2 +-
 src/bin/cdx/cgrep_main.rs     |  2 +-
 src/bin/cdx/cut_main.rs       |  2 +-
 src/util.rs                   | 23 ++++++++++++++++++-----
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index aa340e4..0bb1bae 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -152,7 +152,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 not_header.extend(m.header());
             }
         }
-        if settings.checker.check(&not_header, f)? {
+        if settings.checker.check_head(&not_header, f)? {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1c1932a..f81e3de 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -156,7 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.has_header() {
                 not_header = header.get_head(&settings.text_out());
             }
-            if settings.checker.check(not_header.as_bytes(), x)? {
+            if settings.checker.check_head(not_header.as_bytes(), x)? {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 108b3ee..3632073 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -52,7 +52,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_head(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..3e4f6f1 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_head(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index 214d629..f26244f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1996,13 +1996,20 @@ impl HeaderChecker {
     /// call for the first line of every input file
     /// return true if the header should be written
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
-        let first = !self.saw_one;
         if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+            self.check_head(file.header().line.as_bytes(), fname)
         } else {
-            self.check(b"fake", fname)?;
+            self.check_head(b"", fname)
         }
-        Ok(file.has_header() && first)
+    }
+
+    /// call for the header of every input file, with an empty header if the file has none
+    /// return true if the header should be written
+    pub fn check_head(&mut self, head: &[u8], fname: &str) -> Result<bool> {
+        is_valid_cdx(head, self.mode, fname)?;
+        let first = !self.saw_one;
+        let show = self.check_line(head, !head.is_empty(), fname)?;
+        Ok(show && first && !head.is_empty())
     }
 
     /// call for the first line of every input file
@@ -2012,7 +2019,13 @@ impl HeaderChecker {
         let cdx = is_valid_cdx(first_line, self.mode, fname)?;
         if first_line.is_empty() {
             Ok(false)
-        } else if first_line.last().unwrap() != &b'\n' && cdx {
+        } else {
+            self.check_line(first_line, cdx, fname)
+        }
+    }
+
+    fn check_line(&mut self, first_line: &[u8], cdx: bool, fname: &str) -> Result<bool> {
+        if cdx && first_line.last().unwrap() != &b'\n' {
             err!("Malformed Header line in file {}", &fname)
         } else if self.saw_one {
             match self.mode {
-- 
2.43.0


From 82a1a8b0785c9eee090c7a8019da19d1fd23d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 065/116] fix: binsearch ignores empty files, as the other
 tools do

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 0bb1bae..897e8d7 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -142,6 +142,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     for f in &files {
         let m = MemMap::new(f)?;
+        if m.get().is_empty() {
+            continue;
+        }
         not_header.clear();
         if m.has_header() {
             if let Some(f) = &filename {
-- 
2.43.0


From 377242e933eb40d3e4971807a6725d4156ce98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:00 +0000
Subject: [PATCH 066/116] fix: header modes None, Strip and Require do as they
 are documented

---
 src/util.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index f26244f..60d02ee 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2057,6 +2057,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
@@ -2071,7 +2079,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From 5695f07fbdc7ebc7ca3c36d3165aa940c7d6dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:25 +0000
Subject: [PATCH 067/116] fix: fractional thresholds of 'at most' and 'at
 least' were swapped

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 8022b3b..2ae85a2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
-- 
2.43.0


From 28ac2a185a50f3a90177721a5ae23404ddf946a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:12 +0000
Subject: [PATCH 068/116] fix: an empty multi-pattern is an error, not a panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 2ae85a2..9a147ff 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1895,6 +1895,9 @@ impl MatchMaker {
             m.ctype = Self::resolve_alias(m.ctype);
         }
         if let Some(mm) = m.multi_mode {
+            if pattern.is_empty() {
+                return err!("A multi-pattern must start with its delimiter : {matcher}");
+            }
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
             let delim = pattern.first();
-- 
2.43.0


From dc94c6c1f0ac01b6ab053809be692859bbdd28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 069/116] fix: expressions may use <=, >=, == and !=

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..8c8975a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 5b907d4dd81fc474cd9b614841b6c447768a912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 070/116] fix: names in expressions may contain underscores

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8c8975a..4a9b279 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -152,7 +152,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty() && (input.first().is_alphanumeric() || input.first() == '_') {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From d210ebf61311a6bd2aab2ee7681ee11f564fe56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 071/116] fix: a factorial may be followed by plus or minus

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 4a9b279..f75da78 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,7 +63,7 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-        Unary(_) => false,
+        Unary(op) => matches!(op, UnaryOp::Fact),
         LParen => false,
         RParen => true,
         Comma => false,
-- 
2.43.0


From 215cd693b3fb986ac3f1858e9c7d9847c2821d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 072/116] fix: an empty expression is an error, not a panic

---
 src/shunting_yard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..6a2253b 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -141,6 +141,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
+    if n_operands < 1 {
+        return err!("Not Enough Operands");
+    }
 
     output.shrink_to_fit();
     Ok(output)
-- 
2.43.0


From 0519fa8526df61b9eee32a2f8c102dc37a874e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 073/116] fix: acos is the arc cosine

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..60123b8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From 8dabc643be45e3f5dab090fa9f7f7681f295653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 074/116] fix: the factorial of zero is one

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 60123b8..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From b4574f31cce2aaa7da7dadaf7f24c117e84b2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:03 +0000
Subject: [PATCH 075/116] fix: expressions find their columns anew in each file

---
 src/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..53101cd 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -481,7 +481,10 @@ impl Expr {
         }
         let start_vars = self.vars.len();
         self.parse(&n)?;
-        'outer: for y in self.vars.iter_mut().skip(start_vars) {
+        'outer: for (pos, y) in self.vars.iter_mut().enumerate() {
+            if pos < start_vars && y.col.is_none() {
+                continue; // not a column
+            }
             for (i, x) in fieldnames.iter().enumerate() {
                 if *x == y.name {
                     y.col = Some(i);
-- 
2.43.0


From 6a7ac1264a26476f0b5ebf37dcf2dcc91ef8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 076/116] fix: the first argument of a function may have a sign

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index f75da78..7a9bf1e 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -69,7 +69,7 @@ const fn can_binary(tok: &Token) -> bool {
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false, // i.e. the open paren of a function call
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From e5d13c8d36de6f4a5a673a7139c8daca58c404f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 077/116] fix: column c0 in an expression is an error, not a
 panic

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 53101cd..d637964 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -495,7 +495,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let num = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if num == 0 {
+                    return err!("Column {} is out of bounds", y.name);
+                }
+                y.col = Some(num - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From 4a26cb927432161ba88c039304fd66457937f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:22 +0000
Subject: [PATCH 078/116] fix: misplaced operators and empty parentheses in
 expressions are errors

---
 src/shunting_yard.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index 6a2253b..b4e327e 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -45,9 +45,26 @@ const fn prec_assoc(token: &Token) -> (u32, Associativity) {
 pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     let mut output = Vec::with_capacity(input.len());
     let mut stack = Vec::with_capacity(input.len());
+    let mut want_operand = true; // is an operand due, rather than an operator?
 
     for (index, token) in input.iter().enumerate() {
         let token = token.clone();
+        let operand_ok = match token {
+            Number(_) | Var(_) | LParen | Func(..) => true,
+            Unary(op) => op != UnaryOp::Fact,
+            Binary(_) | RParen | Comma => false,
+        };
+        if want_operand && !operand_ok {
+            return err!("Not Enough Operands");
+        }
+        if !want_operand && operand_ok {
+            return err!("Too Many Operands");
+        }
+        want_operand = match token {
+            Number(_) | Var(_) | RParen => false,
+            Unary(op) => op != UnaryOp::Fact,
+            Binary(_) | LParen | Func(..) | Comma => true,
+        };
         match token {
             Number(_) | Var(_) => output.push(token),
             Unary(_) => stack.push((index, token)),
-- 
2.43.0


From 4d04556bf4e40d058d9d85b2ac1db595d1001c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:45 +0000
Subject: [PATCH 079/116] fix: numeric per-column values must not index an
 empty vector

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index f17c846..b8b3ee0 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -468,9 +468,10 @@ impl ScopedValues {
     pub fn make_ints(&mut self) -> Result<()> {
         self.ints.clear();
         for i in 0..self.strings.len() {
-            self.ints[i] = self
+            let val = self
                 .get(i)
                 .to_isize_whole(self.get(i).as_bytes(), "number")?;
+            self.ints.push(val);
         }
         Ok(())
     }
@@ -478,7 +479,8 @@ impl ScopedValues {
     pub fn make_floats(&mut self) -> Result<()> {
         self.floats.clear();
         for i in 0..self.strings.len() {
-            self.floats[i] = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            let val = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            self.floats.push(val);
         }
         Ok(())
     }
-- 
2.43.0


From b1e874948807ff850a73e1fc0c9bd105b7c29968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:45 +0000
Subject: [PATCH 080/116] fix: paste --last must not panic on a file without
 lines

---
 src/bin/cdx/paste_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..2735a46 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -130,7 +130,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && !f.prev_line(1).line().is_empty() {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From 0055d8ef26f93e2d101b8c0e87fb75fda2b1cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:45 +0000
Subject: [PATCH 081/116] fix: paste must use the delimiter of its input

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 2735a46..f32797f 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -89,6 +89,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         fds.push(f);
     }
     let mut w = get_writer("-")?;
+    let delim = settings.text_in.delim;
     header.check_rename()?;
     if do_header {
         w.write_all(header.get_head(&settings.text_out()).as_bytes())?;
@@ -126,7 +127,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             need_delim = true;
             if f.is_done() {
@@ -136,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&[delim])?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From 59fbfee1f50052b06e79fa51de0637465f8b8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:45 +0000
Subject: [PATCH 082/116] fix: transpose must not invent a column for a file
 with only a header

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From 927c485aa2d8a5ff7db1885129ac5dd82d6821c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:45 +0000
Subject: [PATCH 083/116] fix: transpose must use the delimiter of its input

---
 src/transpose.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index f1ef405..7d4d5ef 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -20,7 +20,8 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut w = get_writer("-")?;
     if head {
-        w.write_all(b" CDX\t")?;
+        w.write_all(b" CDX")?;
+        w.write_all(&[f.delim()])?;
     }
     for i in 0..f.header().len() {
         let mut need_tab = if f.has_header() {
@@ -31,7 +32,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         };
         for x in &data {
             if need_tab {
-                w.write_all(b"\t")?;
+                w.write_all(&[f.delim()])?;
             }
             need_tab = true;
             w.write_all(&x[i])?;
-- 
2.43.0


From 1250904c01f10e0357e1d2e448c63c4a4c011bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:36 +0000
Subject: [PATCH 084/116] fix: sampling two lines must not run out of space

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..5c2dd6b 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1); // there must be something to collapse
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From 1caeee4372ed8997c45158f1e301aa4078f9733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:09 +0000
Subject: [PATCH 085/116] fix: wc --columns must not panic on a line with too
 many columns

---
 src/bin/cdx/wc_main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..4da9697 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -110,6 +110,15 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 continue;
             }
             loop {
+                if f.curr_line().len() > colmap.len() {
+                    return err!(
+                        "Expected {} columns, but line {} of {} had {}",
+                        colmap.len(),
+                        f.line_number(),
+                        x,
+                        f.curr_line().len()
+                    );
+                }
                 for (i, x) in f.curr_line().iter().enumerate() {
                     aggs[colmap[i]].agg.add(x);
                 }
-- 
2.43.0


From 69d1a32aad9ed10713f9cd6231d39a92d62d003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:29 +0000
Subject: [PATCH 086/116] fix: sort retries an interrupted read

---
 src/sort.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sort.rs b/src/sort.rs
index 3dc9caa..6c5e190 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -411,7 +411,10 @@ impl Sorter {
                 sz = self.prepare(SIZE);
             }
             debug_assert!(sz > 0);
-            let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
+            let nbytes = match r.read(&mut self.data[self.data_used..self.data_used + sz]) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                x => x?,
+            };
             if nbytes == 0 {
                 if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
                     self.data[self.data_used] = b'\n';
-- 
2.43.0


From cc15f8b3f82cdb8bf04b6eb03bace8b1e88ba1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:49 +0000
Subject: [PATCH 087/116] fix: an interrupted read of any input is tried again

---
 src/util.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 60d02ee..016f44e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1289,9 +1289,24 @@ pub fn get_reader(name: &str) -> Result<Infile> {
     Ok(Infile::new(outer, name))
 }
 
+/// Try again if a read was interrupted
+struct RetryRead(Box<dyn Read>);
+
+impl Read for RetryRead {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                x => return x,
+            }
+        }
+    }
+}
+
 /// Make a BufReader that starts with at least four buffered bytes, if there are that many,
 /// so that the start of the file is recognized no matter how few bytes each read returns.
-fn buf_reader(mut inner: Box<dyn Read>) -> Result<io::BufReader<Box<dyn Read>>> {
+fn buf_reader(inner: Box<dyn Read>) -> Result<io::BufReader<Box<dyn Read>>> {
+    let mut inner = RetryRead(inner);
     let mut start = Vec::with_capacity(4);
     inner.by_ref().take(4).read_to_end(&mut start)?;
     Ok(io::BufReader::new(Box::new(
-- 
2.43.0


From 21664ce525757605e1e65f279109f5347e311601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 088/116] fix: tabs shows lines with extra columns, many
 columns and many files without panicking

---
 src/bin/cdx/tabs_main.rs |  4 ++--
 src/tabs.rs              | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..6d305fd 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -41,7 +41,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 println!("{}", x);
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 println!("{:-<1$}", "", real);
diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..e833cad 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -27,7 +27,8 @@ impl Rect {
             ws_xpixel: 0,
             ws_ypixel: 0,
         };
-        if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
+        let known = unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0;
+        if known && ws.ws_col > 0 && ws.ws_row > 0 {
             Self {
                 width: ws.ws_col as usize,
                 height: (ws.ws_row - 1) as usize,
@@ -85,13 +86,16 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.resize(i + 1, 0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
@@ -156,13 +160,16 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.resize(i + 1, 0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From 3609813237a8bf86c6f797761e2a9e135bb1e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 089/116] fix: tabs reports output that cannot be written,
 rather than panicking

---
 src/bin/cdx/tabs_main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index 6d305fd..f555501 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -2,13 +2,14 @@ use crate::prelude::*;
 use cdx::prelude::*;
 use cdx::tabs;
 
-fn print_centered(txt: &str, width: usize) {
+fn print_centered(w: &mut impl Write, txt: &str, width: usize) -> Result<()> {
     if txt.len() > width {
     } else {
         let left = (width - txt.len()) / 2;
         let right = width - txt.len() - left;
-        println!("{: <3$}{}{: <4$}", "", txt, "", left, right);
+        writeln!(w, "{: <3$}{}{: <4$}", "", txt, "", left, right)?;
     }
+    Ok(())
 }
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
@@ -28,6 +29,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     if end {
         eprintln!();
     }
+    let mut w = get_writer("-")?;
     if files.len() == 1 {
         let mut v = Vec::new();
         tabs::show2(
@@ -37,7 +39,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             &settings.text_in,
         )?;
         for x in v {
-            println!("{}", x);
+            writeln!(w, "{}", x)?;
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
@@ -47,14 +49,14 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let mut v = Vec::new();
             let r = tabs::Rect::new(base_rect.width, lines_left / files_left);
             let real = tabs::show2(x, &r, &mut v, &settings.text_in)?;
-            print_centered(x, real);
+            print_centered(&mut *w, x, real)?;
             for x in &v {
-                println!("{}", x);
+                writeln!(w, "{}", x)?;
             }
             lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
-                println!("{:-<1$}", "", real);
+                writeln!(w, "{:-<1$}", "", real)?;
             }
         }
     }
-- 
2.43.0


From 1227195b39d256f2966c8034fa3d8a3e73817eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:43 +0000
Subject: [PATCH 090/116] fix: tooltest reports output that cannot be written,
 rather than panicking

---
 src/tooltest.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..7e87a49 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -434,12 +434,15 @@ impl Config {
     }
     /// report
     pub fn report(&self) -> Result<()> {
-        println!(
+        let mut w = get_writer("-")?;
+        writeln!(
+            w,
             "{} test run, {} pass, {} failed",
             self.pass + self.fail,
             self.pass,
             self.fail
-        );
+        )?;
+        w.flush()?;
         if self.fail > 0 {
             cdx_err(CdxError::Silent)
         } else {
-- 
2.43.0


From da142b270b2c9ed05cee548deee8b85d5f02fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 091/116] fix: aggregation keeps other columns by position,
 rather than panicking on odd column names

---
 src/agg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 583ec16..9c6ee7d 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -668,14 +668,15 @@ impl LineAggList {
                 w.push(Box::new(x.clone()));
             }
         }
-        'outer: for (i, x) in head.iter().enumerate() {
+        'outer: for i in 0..head.len() {
             for y in &self.v {
                 if matches!(&y.out, AggType::Replace) && y.is_col(i) {
                     w.push(Box::new(y.clone()));
                     continue 'outer;
                 }
             }
-            w.push(Box::new(ColumnSingle::with_name(x).unwrap()));
+            let col = (i + 1).to_string();
+            w.push(Box::new(ColumnSingle::with_name(&col).unwrap()));
         }
         for x in &self.v {
             if let AggType::Append(_s) = &x.out {
-- 
2.43.0


From f3dc4f5260a10a676fd9f03eefcda5583ed24b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:58 +0000
Subject: [PATCH 092/116] fix: aggregated min and max honour a reversed
 comparison

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 9c6ee7d..9b85331 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -866,7 +866,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1094,7 +1094,7 @@ impl Agg for Max {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
-- 
2.43.0


From cab3bc33287bf4debefb1f709869d687bf2ca8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:04 +0000
Subject: [PATCH 093/116] fix: a failed test must not leave files behind that
 fail the next one

---
 src/tooltest.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 7e87a49..38220d5 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -253,8 +253,10 @@ impl Test {
     /// run the test
     pub fn run(&mut self, config: &Config) -> Result<bool> {
         let mut keep_files = false;
+        // a directory of its own, so that a failed test leaves nothing behind for the next one
+        let own_tmp = TempDir::new_in(config.tmp.path())?;
         let mut tmp: String = if config.tmpdir.is_empty() {
-            config.tmp.path().to_owned().to_string_lossy().to_string()
+            own_tmp.path().to_string_lossy().to_string()
         } else {
             keep_files = true;
             config.tmpdir.clone()
-- 
2.43.0


From 6b1c5cee1399c9c8fbc89f83a0b72b109ea34c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:54 +0000
Subject: [PATCH 094/116] fix: too many digits in a decimal generator are an
 error, not a panic

---
 src/textgen.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..249c36d 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -28,6 +28,12 @@ struct DecimalGen {
     post_size: usize,
 }
 impl DecimalGen {
+    fn power(digits: usize, spec: &str) -> Result<usize> {
+        match 10_usize.checked_pow(digits as u32) {
+            Some(x) => Ok(x),
+            None => err!("Too many digits in decimal pattern '{}'", spec),
+        }
+    }
     // [-]NNN[.NNNN]
     fn new(spec: &str) -> Result<Self> {
         let mut sign = false;
@@ -42,11 +48,11 @@ impl DecimalGen {
             }
             if !spec.is_empty() {
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = Self::power(a.len(), spec)?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = Self::power(post_size, spec)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = Self::power(spec.len(), spec)?;
                 }
             }
         }
-- 
2.43.0


From 899ded1b1c9f71552f0a7bb23b3c6648023806a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 095/116] fix: filegen must not print its settings to stderr

---
 src/textgen.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 249c36d..bfa8505 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -56,15 +56,6 @@ impl DecimalGen {
                 }
             }
         }
-        eprintln!(
-            "{:?}",
-            Self {
-                sign,
-                pre,
-                post,
-                post_size
-            }
-        );
         Ok(Self {
             sign,
             pre,
-- 
2.43.0


From 986fad2aafed74b29e81842c0236d8385a85cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 096/116] fix: a merge delimiter specification of odd length is
 an error, not a panic

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 9b85331..8d94d1a 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -740,7 +740,7 @@ impl Merge {
                 break;
             }
             if sp.as_bytes()[0] == b'D' {
-                if sp.len() < 3 {
+                if sp.len() < 3 || !sp.is_char_boundary(3) {
                     return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
                 }
                 m.add_one(&sp[0..3])?;
-- 
2.43.0


From 32f636af57f8e8f06148e697dafeac617709acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 097/116] fix: paste of empty files with a default for a column
 must not panic

---
 src/column.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index b8b3ee0..7e45da6 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,6 +458,9 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    continue; // no such column, so nothing needs the value
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From af7f680d776079d4e4e688cbf16f3f93dc04b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 098/116] fix: sample must not allocate for lines that never
 come, or overflow, when asked for very many

---
 src/sampler.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index 5c2dd6b..938cdc8 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,22 +22,19 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = (small * 2 - 2).max(small + 1); // there must be something to collapse
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        // there must be something to collapse
+        let large = (small - 1).saturating_mul(2).max(small.saturating_add(1));
         Self {
             small,
             large,
-            data,
+            data: Vec::new(), // grows as needed
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
+        debug_assert!(self.data.len() <= self.large);
         debug_assert!(self.size <= self.large);
         debug_assert!(self.size <= self.large);
         //	debug_assert!(self.pos <= self.jump);
@@ -51,6 +48,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
-- 
2.43.0


From 522d47a4faaffc90b96440a1d14d963cd1c8f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:10 +0000
Subject: [PATCH 099/116] fix: binsearch must not go on asking for context
 after the end of the file

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 897e8d7..ed1f707 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -169,6 +169,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             start = find_prev(data, start);
         }
         for _x in 0..after {
+            if stop == data.len() {
+                break;
+            }
             stop = find_end(data, stop);
         }
         if filename.is_none() {
-- 
2.43.0


From 5cc86f4f13278898466569104ceec36f40a31a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:01 +0000
Subject: [PATCH 100/116] fix: a normal distribution with an infinite deviation
 is an error, not a panic

---
 src/textgen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index bfa8505..8a9c6be 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -138,10 +138,10 @@ impl NormalDistGen {
                 }
             }
         }
-        Ok(Self {
-            fmt,
-            norm: Normal::new(mean, dev).unwrap(),
-        })
+        match Normal::new(mean, dev) {
+            Ok(norm) => Ok(Self { fmt, norm }),
+            Err(e) => err!("Bad normal distribution '{}' : {}", spec, e),
+        }
     }
 }
 impl Gen for NormalDistGen {
-- 
2.43.0


From 54460bef9d32f27296a89e2a26fc5332bc655516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 101/116] fix: binsearch of a file with a partial header is an
 error, not a panic

---
 src/binsearch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 92a621b..011e707 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -28,6 +28,9 @@ impl MemMap {
         let mut header_len = find_end(&map[..], 0);
         let mut header = StringLine::new();
         if is_cdx(&map[..]) {
+            if map.len() < 5 {
+                return err!("File {} has only a partial CDX header", fname);
+            }
             delim = map[4];
             header.line = std::str::from_utf8(&map[0..header_len])?.to_string();
         } else {
-- 
2.43.0


From 89a7050f941a1af1cf51c2bf7d0ca5b2f752ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:28 +0000
Subject: [PATCH 102/116] fix: case insensitive UTF-8 equality must not compare
 lengths in bytes

---
 src/text.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7eeb636..bb884d5 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,25 +382,14 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-- 
2.43.0


From 0299113a1ff488d25cde4928281a8a39a3ac28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 103/116] fix: case insensitive matching must fold a final
 sigma like any other

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 9a147ff..eae332e 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -380,7 +380,7 @@ struct PrefixMatchC {
 impl PrefixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -490,7 +490,7 @@ struct SuffixMatchC {
 impl SuffixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -516,14 +516,14 @@ struct InfixMatchC {
 impl InfixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
 }
 impl Match for InfixMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.to_lowercase().contains(&self.s_data) // PERF allocation
+        buff.new_lower().contains(&self.s_data) // PERF allocation
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         find(&buff.to_ascii_lowercase(), &self.u_data).is_some() // PERF allocation
-- 
2.43.0


From 25dfcef23e5c7f12cf6710ad20a4263a194fc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:23 +0000
Subject: [PATCH 104/116] fix: a later wc --total must replace an earlier
 'only'

---
 src/bin/cdx/wc_main.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 4da9697..a706f5e 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -59,9 +59,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "columns" {
             do_columns = true;
         } else if x.name == "total" {
-            if x.value.eq_ignore_ascii_case("only") {
-                total_only = true;
-            } else {
+            total_only = x.value.eq_ignore_ascii_case("only");
+            if !total_only {
                 show_totals = Tri::new(&x.value)?;
             }
         } else if x.name == "with-header" {
-- 
2.43.0


From 119a6f53fd5dd6a80f8e4f47a73eabe1b681d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:51 +0000
Subject: [PATCH 105/116] fix: aggregated values must be written in the output
 format

---
 src/agg.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 8d94d1a..bd79611 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -423,8 +423,10 @@ impl ColumnFun for LineAgger {
         }
     }
     /// write the column values (called many times)
-    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.agg.borrow_mut().result(w, self.fmt)
+    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
+        self.agg.borrow_mut().result(&mut value, self.fmt)?;
+        text.write(w, &value)
     }
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -452,8 +454,10 @@ impl ColumnFun for Agger {
         w.push(&self.out)
     }
     /// write the column values (called many times)
-    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.agg.borrow_mut().result(w, self.fmt)
+    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
+        self.agg.borrow_mut().result(&mut value, self.fmt)?;
+        text.write(w, &value)
     }
     /// resolve any named columns
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
-- 
2.43.0


From f07385ff2e169f134241b2f8cd39aaaaba7cb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:58 +0000
Subject: [PATCH 106/116] fix: a group of columns must be written in the output
 format

---
 src/column.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 7e45da6..1b0db32 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1319,9 +1319,10 @@ impl ColumnClump {
 }
 
 impl ColumnFun for ColumnClump {
-    fn write(&mut self, w: &mut dyn Write, line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.cols.write(w, line, &self.text)?;
-        Ok(())
+    fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
+        self.cols.write(&mut value, line, &self.text)?;
+        text.write(w, &value)
     }
 
     fn add_names(&self, w: &mut ColumnHeader, _head: &StringLine) -> Result<()> {
-- 
2.43.0


From d270a77c885cd204e131526eeb3ed58673ee281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 107/116] fix: a composite column must be quoted as one value

---
 src/column.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 1b0db32..ca99f56 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1660,12 +1660,13 @@ impl ColumnFun for CompositeColumn {
     }
     /// write the column values (called many times)
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
         for x in &self.parts {
-            text.write(w, x.prefix.as_bytes())?;
-            text.write(w, line.get(x.col.num))?;
+            value.extend_from_slice(x.prefix.as_bytes());
+            value.extend_from_slice(line.get(x.col.num));
         }
-        text.write(w, self.suffix.as_bytes())?;
-        Ok(())
+        value.extend_from_slice(self.suffix.as_bytes());
+        text.write(w, &value)
     }
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
-- 
2.43.0


From 3a037c859313b5030c7d496f519bbc22093e6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:09 +0000
Subject: [PATCH 108/116] fix: wc must write all of its columns in the output
 format

---
 src/bin/cdx/wc_main.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a706f5e..0690544 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -83,6 +83,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let do_totals;
     let show_file;
     agg.fmt(fmt);
+    let text_out = settings.text_out();
     if do_columns {
         if agg.is_empty() {
             agg.push("bytes,asum,chars")?;
@@ -154,14 +155,16 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if !total_only {
             for x in &aggs {
                 if show_file_name != Tri::No {
-                    w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    text_out.write(&mut w.0, x.name.as_bytes())?;
+                    w.write_all(&[text_out.delim])?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&[text_out.delim])?;
                     }
-                    x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
+                    let mut value = Vec::new();
+                    x.agg.get(i).agg.borrow_mut().result(&mut value, fmt)?;
+                    text_out.write(&mut w.0, &value)?;
                 }
                 w.write_all(b"\n")?;
             }
@@ -227,8 +230,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             if !total_only {
                 if show_file {
-                    w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    text_out.write(&mut w.0, x.as_bytes())?;
+                    w.write_all(&[text_out.delim])?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -241,11 +244,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&[text_out.delim])?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&[text_out.delim])?;
             }
             fmt.print(*t, &mut w.0)?;
         }
-- 
2.43.0


From fbcb021190ff625a0ad267878f0be70d67e6669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:25 +0000
Subject: [PATCH 109/116] fix: wc must name as many columns in the header as it
 writes in each line

---
 src/bin/cdx/wc_main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 0690544..a5415c8 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -82,6 +82,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut totals = Vec::new();
     let do_totals;
     let show_file;
+    let show_name;
     agg.fmt(fmt);
     let text_out = settings.text_out();
     if do_columns {
@@ -132,6 +133,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             Tri::No => false,
             Tri::Maybe => aggs.len() > 1 && !total_only,
         };
+        show_name = show_file || (show_file_name == Tri::Maybe && !total_only);
         do_totals = match show_totals {
             Tri::Yes => true,
             Tri::No => false,
@@ -144,7 +146,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         };
         if do_header {
             let mut ch = ColumnHeader::new();
-            if show_file_name != Tri::No {
+            if show_name {
                 ch.push("column")?;
             }
             let mut c_write = Writer::new(settings.text_out());
@@ -154,7 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         if !total_only {
             for x in &aggs {
-                if show_file_name != Tri::No {
+                if show_name {
                     text_out.write(&mut w.0, x.name.as_bytes())?;
                     w.write_all(&[text_out.delim])?;
                 }
@@ -187,6 +189,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             Tri::No => false,
             Tri::Maybe => files.len() > 1 && !total_only,
         };
+        show_name = show_file;
         do_totals = match show_totals {
             Tri::Yes => true,
             Tri::No => false,
@@ -243,7 +246,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     if do_totals {
-        if show_file {
+        if show_name {
             w.write_all(b"totals")?;
             w.write_all(&[text_out.delim])?;
         }
-- 
2.43.0


From 8032441f4828dccd56c12ba823a42a7979e948b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:11 +0000
Subject: [PATCH 110/116] fix: tooltest must refuse a status no process can end
 with, not wrap it round

---
 src/tooltest.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 38220d5..df1376d 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -199,7 +199,11 @@ impl Test {
                 /* do nothing */
             } else if let Some(x) = line.strip_prefix(b"#status") {
                 let y = x.trimw_start();
-                self.code = y.to_isize_whole(&line, "status")? as i32;
+                let code = y.to_isize_whole(&line, "status")?;
+                self.code = match i32::try_from(code) {
+                    Ok(x) => x,
+                    Err(_) => return err!("Status out of range : {}", code),
+                };
             } else if let Some(x) = line.strip_prefix(b"#infile") {
                 let y = x.trimw_start();
                 let mut f = InFile {
-- 
2.43.0


From a771a82f177071599294e11b4744c167471809ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:11 +0000
Subject: [PATCH 111/116] fix: cat -n and filegen count must not overflow past
 the largest start

---
 src/column.rs  | 4 ++--
 src/textgen.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index ca99f56..a42a15d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -662,7 +662,7 @@ impl ColumnFun for ColumnWhole {
 /// write an increasing count, e.g. cat -n
 #[derive(Debug, Default, Clone)]
 pub struct ColumnCount {
-    num: isize,
+    num: i128,
     name: String,
 }
 
@@ -671,7 +671,7 @@ impl ColumnCount {
     #[must_use]
     pub fn new(num: isize, name: &str) -> Self {
         Self {
-            num,
+            num: num as i128,
             name: name.to_string(),
         }
     }
diff --git a/src/textgen.rs b/src/textgen.rs
index 8a9c6be..9df8040 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -182,7 +182,7 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        write!(w, "{}", loc.line as i128 + self.start as i128 - 1)?;
         Ok(())
     }
 }
-- 
2.43.0


From 5810145836843760ee86aa2263f55b38750c49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:11 +0000
Subject: [PATCH 112/116] fix: sample --for must not overflow with a large step

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 23ec2aa..8fced74 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -158,7 +158,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 1693ae0a4e7775da789b7c8c5b3b122e806dcdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:11 +0000
Subject: [PATCH 113/116] fix: byte positions beyond 4 GB must not wrap round
 to the start of the value

---
 src/util.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 016f44e..eaf7f0a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -467,6 +467,11 @@ cdx.maybe.Ct.literal.Ln
 --text-in
  */
 
+/// a position, or the last one representable if it is larger
+fn to_u32(val: usize) -> u32 {
+    u32::try_from(val).unwrap_or(u32::MAX)
+}
+
 /// pointers into a vector, simulating a slice without the ownership issues
 #[derive(Debug, Clone, Copy, Default)]
 pub struct FakeSlice {
@@ -477,8 +482,8 @@ impl FakeSlice {
     /// new from text, like '7' or '3-6'
     pub fn new(spec: &str) -> Result<Self> {
         if let Some((a, b)) = spec.split_once('-') {
-            let begin = a.to_usize_whole(spec.as_bytes(), "range")? as u32;
-            let end = b.to_usize_whole(spec.as_bytes(), "range")? as u32;
+            let begin = to_u32(a.to_usize_whole(spec.as_bytes(), "range")?);
+            let end = to_u32(b.to_usize_whole(spec.as_bytes(), "range")?);
             if begin == 0 || end == 0 {
                 err!("Invalid range, both number must be greater than zero")
             } else if begin > end {
@@ -490,7 +495,7 @@ impl FakeSlice {
                 })
             }
         } else {
-            let num = spec.to_usize_whole(spec.as_bytes(), "position")? as u32;
+            let num = to_u32(spec.to_usize_whole(spec.as_bytes(), "position")?);
             if num == 0 {
                 err!("Invalid offset, must be greater than zero")
             } else {
-- 
2.43.0


From 9ed03c5651c3112deb96704c3a7c09cb51599855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:11 +0000
Subject: [PATCH 114/116] fix: the smallest integer must be read as itself

---
 src/text.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index bb884d5..c98d26b 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -651,7 +651,7 @@ impl Text for [u8] {
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
             ret = ret.saturating_mul(10);
-            ret = ret.saturating_add((curr[0] - b'0') as isize);
+            ret = ret.saturating_add(neg * (curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
@@ -660,7 +660,6 @@ impl Text for [u8] {
                 ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
-        ret *= neg;
         (ret, curr)
     }
     fn to_f64(&self) -> (f64, &Self) {
-- 
2.43.0


From bf8197f39e17f757e47053c3836dd31bd282ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:41 +0000
Subject: [PATCH 115/116] fix: merge with max_parts:0 must write no parts

---
 src/agg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index bd79611..c024f06 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -825,15 +825,15 @@ impl Agg for Merge {
         } else {
             let mut num_written = 0;
             for x in &self.data.parts {
+                if num_written >= self.max_parts {
+                    break;
+                }
                 if x.len() >= self.min_len && x.len() <= self.max_len {
                     if num_written > 0 {
                         w.write_all(&[self.out_delim])?;
                     }
                     w.write_all(x.get(self.data.line()))?;
                     num_written += 1;
-                    if num_written >= self.max_parts {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From 5ff98334d31b27d76d473dfe5a8aff1477396c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:01 +0000
Subject: [PATCH 116/116] fix: a reversed comparison must be reversed in a
 range match

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index eaf7f0a..29f85e4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,7 +1,7 @@
 //! Misc utility stuff
 //#![allow(dead_code)]
 use crate::column::ColumnHeader;
-use crate::comp::{CompMaker, Compare};
+use crate::comp::{Comp, CompMaker};
 use crate::prelude::*;
 use anyhow;
 use flate2::read::MultiGzDecoder;
@@ -2415,9 +2415,9 @@ impl CheckLine {
 /// A compare op with some text to compare against
 pub struct CheckBuff {
     op: CompareOp,
-    val: Box<dyn Compare>,
+    val: Comp,
     op2: Option<CompareOp>,
-    val2: Option<Box<dyn Compare>>,
+    val2: Option<Comp>,
 }
 impl fmt::Debug for CheckBuff {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -2436,7 +2436,7 @@ impl CheckBuff {
         Ok(Self {
             op: r.op1.parse::<CompareOp>()?,
             val: {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val1.as_bytes());
                 c
             },
@@ -2448,7 +2448,7 @@ impl CheckBuff {
             val2: if r.val2.is_none() {
                 None
             } else {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val2.unwrap().as_bytes());
                 Some(c)
             },
-- 
2.43.0

