From 35a5b8c004352006904ffe0e579a603cfc3f1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 001/127] monitor: runtime monitors behind cfg(ruruby_monitor)

---
 ruruby/src/alloc.rs                 |  74 +++++++++++-
 ruruby/src/globals/method.rs        |  30 +++++
 ruruby/src/lib.rs                   |   2 +
 ruruby/src/main.rs                  |   2 +
 ruruby/src/monitor.rs               | 170 ++++++++++++++++++++++++++++
 ruruby/src/value/rvalue.rs          |  21 ++++
 ruruby/src/vm/executor.rs           |  16 +++
 ruruby/src/vm/executor/constants.rs |  18 +++
 ruruby/src/vm/executor/opt_core.rs  |   3 +
 9 files changed, 335 insertions(+), 1 deletion(-)
 create mode 100644 ruruby/src/monitor.rs

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index 90b6c93..587f583 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -149,7 +149,12 @@ impl<T: GCBox> Allocator<T> {
     pub fn alloc(&mut self, data: T) -> *mut T {
         self.allocated += 1;
 
-        if let Some(gcbox) = self.free {
+        #[cfg(ruruby_monitor)]
+        let quarantined = crate::monitor::quarantined(self.pages_len());
+        #[cfg(not(ruruby_monitor))]
+        let quarantined = false;
+
+        if let (false, Some(gcbox)) = (quarantined, self.free) {
             // Allocate from the free list.
             let gcbox = gcbox.as_ptr();
             unsafe {
@@ -157,6 +162,8 @@ impl<T: GCBox> Allocator<T> {
                 std::ptr::write(gcbox, data)
             }
             self.free_list_count -= 1;
+            #[cfg(ruruby_monitor)]
+            crate::monitor::inc(&crate::monitor::REUSED);
             return gcbox;
         }
 
@@ -167,6 +174,7 @@ impl<T: GCBox> Allocator<T> {
             self.current = self
                 .free_pages
                 .pop()
+                .filter(|_| !quarantined)
                 .unwrap_or_else(|| PageRef::alloc_page());
             self.current.get_data_ptr(0)
         } else {
@@ -236,6 +244,8 @@ impl<T: GCBox> Allocator<T> {
         }
         self.alloc_flag = false;
         self.count += 1;
+        #[cfg(ruruby_monitor)]
+        self.monitor_audit();
         let malloced = MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst);
         self.malloc_threshold = malloced + MALLOC_THRESHOLD;
         #[cfg(any(feature = "trace", feature = "gc-debug"))]
@@ -340,6 +350,68 @@ impl<T: GCBox> Allocator<T> {
     }
 }
 
+#[cfg(ruruby_monitor)]
+impl<T: GCBox> Allocator<T> {
+    /// Heap accounting at the end of a GC cycle: every cell handed out in the active pages is either marked
+    /// or in the free list, exactly once, and the counters agree with the bitmaps.
+    fn monitor_audit(&mut self) {
+        use crate::monitor::*;
+        inc(&GC_CYCLES);
+        LIVE.store(self.mark_counter, std::sync::atomic::Ordering::Relaxed);
+        ALLOCATED.store(self.allocated, std::sync::atomic::Ordering::Relaxed);
+        if !armed() || !CONFIG.audit {
+            return;
+        }
+        inc(&AUDITS);
+        let cells = self.pages.len() * DATA_LEN + self.used_in_current;
+        if cells != self.mark_counter + self.free_list_count {
+            violation(
+                "heap-accounting",
+                format!(
+                    "cells:{} live:{} free:{}",
+                    cells, self.mark_counter, self.free_list_count
+                ),
+            );
+        }
+        let marked: usize = self
+            .pages
+            .iter()
+            .chain(std::iter::once(&self.current))
+            .flat_map(|p| p.mark_bits().iter())
+            .map(|b| b.count_ones() as usize)
+            .sum();
+        if marked != self.mark_counter {
+            violation(
+                "heap-mark-bits",
+                format!("bits:{} counter:{}", marked, self.mark_counter),
+            );
+        }
+        let mut seen = std::collections::HashSet::new();
+        let mut free = self.free;
+        while let Some(p) = free {
+            let p = p.as_ptr();
+            let page = PageRef::from_inner(p);
+            if page != self.current && !self.pages.iter().any(|x| *x == page) {
+                violation("heap-free-list", format!("{:p} is in no active page", p));
+            }
+            let index = unsafe { p.offset_from(page.get_data_ptr(0)) } as usize;
+            if page.mark_bits()[index / 64] & (1 << (index % 64)) != 0 {
+                violation("heap-free-list", format!("{:p} is live", p));
+            }
+            if !seen.insert(p as usize) {
+                violation("heap-free-list", format!("{:p} is listed twice", p));
+            }
+            free = unsafe { (*p).next() };
+        }
+        if seen.len() != self.free_list_count {
+            violation(
+                "heap-free-list",
+                format!("walked:{} counter:{}", seen.len(), self.free_list_count),
+            );
+        }
+    }
+}
+
 // For debug
 impl<T: GCBox> Allocator<T> {
     fn check_ptr(&self, ptr: *mut T) {
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 7de7f9a..5260462 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -86,6 +86,8 @@ impl MethodRepo {
         if let Some(fid) = self.i_cache.get_entry(id, cur_version, rec_class) {
             #[cfg(feature = "perf-method")]
             self.perf.inc_inline_hit();
+            #[cfg(ruruby_monitor)]
+            Self::monitor_hit(&monitor::INLINE_HITS, rec_class, method_name, fid);
             return Some(fid);
         };
         #[cfg(feature = "perf-method")]
@@ -106,6 +108,8 @@ impl MethodRepo {
         self.perf.inc_total();
         let cur_version = self.class_version;
         if let Some(fid) = self.m_cache.get_entry(rec_class, cur_version, method_name) {
+            #[cfg(ruruby_monitor)]
+            Self::monitor_hit(&monitor::METHOD_HITS, rec_class, method_name, fid);
             return Some(fid);
         };
         #[cfg(feature = "perf-method")]
@@ -122,6 +126,32 @@ impl MethodRepo {
     }
 }
 
+#[cfg(ruruby_monitor)]
+impl MethodRepo {
+    /// Compare a hit of a method cache with a search through the class chain.
+    fn monitor_hit(
+        counter: &std::sync::atomic::AtomicU64,
+        rec_class: Module,
+        method_name: IdentId,
+        cached: FnId,
+    ) {
+        if !monitor::armed() || !monitor::CONFIG.cache {
+            return;
+        }
+        monitor::inc(counter);
+        let found = rec_class.search_method(method_name).map(|info| info.fid());
+        if found != Some(cached) {
+            monitor::violation(
+                "method-cache",
+                format!(
+                    "{:?}: cached {:?}, class chain {:?}",
+                    method_name, cached, found
+                ),
+            );
+        }
+    }
+}
+
 #[cfg(feature = "perf-method")]
 impl MethodRepo {
     pub(crate) fn inc_counter(&mut self, id: FnId) {
diff --git a/ruruby/src/lib.rs b/ruruby/src/lib.rs
index 193fd4f..e52db4f 100644
--- a/ruruby/src/lib.rs
+++ b/ruruby/src/lib.rs
@@ -20,6 +20,8 @@ pub mod codegen;
 pub mod coroutine;
 pub mod error;
 mod globals;
+#[cfg(ruruby_monitor)]
+pub mod monitor;
 pub mod tests;
 mod value;
 mod vm;
diff --git a/ruruby/src/main.rs b/ruruby/src/main.rs
index 35d017c..89b7414 100644
--- a/ruruby/src/main.rs
+++ b/ruruby/src/main.rs
@@ -100,4 +100,6 @@ fn execute(vm: &mut VM, absolute_path: std::path::PathBuf, program: impl Into<St
             err.show_all_loc();
         }
     };
+    #[cfg(ruruby_monitor)]
+    vm.monitor_end();
 }
diff --git a/ruruby/src/monitor.rs b/ruruby/src/monitor.rs
new file mode 100644
index 0000000..00f483b
--- /dev/null
+++ b/ruruby/src/monitor.rs
@@ -0,0 +1,170 @@
+//! Runtime monitors.
+//!
+//! This module exists only under `--cfg ruruby_monitor`. It is configured through the environment variable
+//! `RURUBY_MON`, a comma separated list of
+//!
+//! - `gc=never` | `gc=every:N` | `gc=rand:SEED:N` : replaces the GC trigger at the GC check points of the interpreter
+//! - `quarantine=N` : swept cells are not reused until the heap has grown to N pages
+//! - `poison` : swept cells are overwritten with a pattern
+//! - `audit` : heap accounting is checked after every GC cycle
+//! - `cache` : every hit of the method caches and the constant cache is compared with an uncached lookup
+//! - `stats=PATH` : counters are appended to PATH when the program ends
+//!
+//! A violation is reported on stderr as `MONITOR-VIOLATION <kind>: <detail>`, and the process exits with 97.
+
+use once_cell::sync::Lazy;
+use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
+
+pub enum GcMode {
+    Default,
+    Never,
+    Every(u64),
+    Rand(u64),
+}
+
+pub struct Config {
+    pub gc: GcMode,
+    pub quarantine: usize,
+    pub poison: bool,
+    pub audit: bool,
+    pub cache: bool,
+    pub stats: Option<String>,
+}
+
+pub static CONFIG: Lazy<Config> = Lazy::new(|| {
+    let mut c = Config {
+        gc: GcMode::Default,
+        quarantine: 0,
+        poison: false,
+        audit: false,
+        cache: false,
+        stats: None,
+    };
+    let text = std::env::var("RURUBY_MON").unwrap_or_default();
+    for item in text.split(',').filter(|s| !s.is_empty()) {
+        let (key, val) = match item.find('=') {
+            Some(i) => (&item[..i], &item[i + 1..]),
+            None => (item, ""),
+        };
+        match key {
+            "gc" => {
+                let v: Vec<&str> = val.split(':').collect();
+                let num = |i: usize| v.get(i).and_then(|s: &&str| s.parse::<u64>().ok());
+                c.gc = match v[0] {
+                    "never" => GcMode::Never,
+                    "every" => GcMode::Every(num(1).unwrap_or(1).max(1)),
+                    "rand" => {
+                        SEED.store(num(1).unwrap_or(1) * 2 + 1, Relaxed);
+                        GcMode::Rand(num(2).unwrap_or(16).max(1))
+                    }
+                    _ => GcMode::Default,
+                }
+            }
+            "quarantine" => c.quarantine = val.parse().unwrap_or(64),
+            "poison" => c.poison = true,
+            "audit" => c.audit = true,
+            "cache" => c.cache = true,
+            "stats" => c.stats = Some(val.to_string()),
+            _ => {}
+        }
+    }
+    c
+});
+
+static SEED: AtomicU64 = AtomicU64::new(1);
+
+/// Monitors are silent until the start-up script of the interpreter has ended.
+static ARMED: AtomicBool = AtomicBool::new(false);
+
+pub static GC_POINTS: AtomicU64 = AtomicU64::new(0);
+pub static GC_FORCED: AtomicU64 = AtomicU64::new(0);
+pub static GC_CYCLES: AtomicU64 = AtomicU64::new(0);
+pub static AUDITS: AtomicU64 = AtomicU64::new(0);
+pub static FREED: AtomicU64 = AtomicU64::new(0);
+pub static REUSED: AtomicU64 = AtomicU64::new(0);
+pub static METHOD_HITS: AtomicU64 = AtomicU64::new(0);
+pub static INLINE_HITS: AtomicU64 = AtomicU64::new(0);
+pub static CONST_HITS: AtomicU64 = AtomicU64::new(0);
+pub static LIVE: AtomicUsize = AtomicUsize::new(0);
+pub static ALLOCATED: AtomicUsize = AtomicUsize::new(0);
+
+pub fn arm() {
+    Lazy::force(&CONFIG);
+    ARMED.store(true, Relaxed);
+}
+
+pub fn armed() -> bool {
+    ARMED.load(Relaxed)
+}
+
+pub fn inc(counter: &AtomicU64) {
+    counter.fetch_add(1, Relaxed);
+}
+
+pub fn violation(kind: &str, detail: String) -> ! {
+    eprintln!("MONITOR-VIOLATION {}: {}", kind, detail);
+    write_stats(0);
+    std::process::exit(97)
+}
+
+/// What to do at a GC check point. None: leave it to the interpreter.
+pub fn gc_decision() -> Option<bool> {
+    if !armed() {
+        return None;
+    }
+    let n = GC_POINTS.fetch_add(1, Relaxed);
+    let force = match CONFIG.gc {
+        GcMode::Default => return None,
+        GcMode::Never => false,
+        GcMode::Every(k) => n % k == 0,
+        GcMode::Rand(k) => {
+            let mut x = SEED.load(Relaxed);
+            x ^= x << 13;
+            x ^= x >> 7;
+            x ^= x << 17;
+            SEED.store(x, Relaxed);
+            (x >> 11) % k == 0
+        }
+    };
+    if force {
+        inc(&GC_FORCED);
+    }
+    Some(force)
+}
+
+/// Whether swept cells must stay unused while the heap has `pages` pages.
+pub fn quarantined(pages: usize) -> bool {
+    armed() && pages < CONFIG.quarantine
+}
+
+pub fn write_stats(temp_len: usize) {
+    let path = match &CONFIG.stats {
+        Some(path) => path,
+        None => return,
+    };
+    let get = |c: &AtomicU64| c.load(Relaxed);
+    let line = format!(
+        "{{\"gc_points\":{},\"gc_forced\":{},\"gc_cycles\":{},\"audits\":{},\"freed\":{},\"reused\":{},\
+        \"live\":{},\"allocated\":{},\"method_hits\":{},\"inline_hits\":{},\"const_hits\":{},\"temp_len\":{}}}\n",
+        get(&GC_POINTS),
+        get(&GC_FORCED),
+        get(&GC_CYCLES),
+        get(&AUDITS),
+        get(&FREED),
+        get(&REUSED),
+        LIVE.load(Relaxed),
+        ALLOCATED.load(Relaxed),
+        get(&METHOD_HITS),
+        get(&INLINE_HITS),
+        get(&CONST_HITS),
+        temp_len,
+    );
+    use std::io::Write;
+    if let Ok(mut f) = std::fs::OpenOptions::new()
+        .append(true)
+        .create(true)
+        .open(path)
+    {
+        let _ = f.write_all(line.as_bytes());
+    }
+}
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 705b7c5..0b86593 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -450,6 +450,10 @@ impl GC<RValue> for RValue {
         if alloc.gc_check_and_mark(self) {
             return;
         }
+        #[cfg(ruruby_monitor)]
+        if self.kind_or_none().is_none() {
+            monitor::violation("gc-reclaimed-reachable", format!("{:p}", self));
+        }
         self.class.mark(alloc);
         match &self.var_table {
             Some(table) => table.values().for_each(|v| v.mark(alloc)),
@@ -519,6 +523,8 @@ impl GCBox for RValue {
                 }
                 self.set_next_none();
                 self.var_table = None;
+                #[cfg(ruruby_monitor)]
+                self.monitor_freed();
             }
         }
     }
@@ -551,6 +557,21 @@ impl GCBox for RValue {
     }
 }
 
+#[cfg(ruruby_monitor)]
+impl RValue {
+    /// Called when this cell was freed. Overwrites everything but the link of the free list.
+    fn monitor_freed(&mut self) {
+        monitor::inc(&monitor::FREED);
+        if monitor::armed() && monitor::CONFIG.poison {
+            unsafe {
+                std::ptr::write_bytes(&mut self.class as *mut Module as *mut u8, 0x5a, 8);
+                let body = &mut self.kind as *mut ObjKind as *mut u8;
+                std::ptr::write_bytes(body, 0x5a, std::mem::size_of::<ObjKind>());
+            }
+        }
+    }
+}
+
 impl RValue {
     #[inline(always)]
     pub(crate) fn id(&self) -> u64 {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ba546b4..c02ec41 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -133,6 +133,8 @@ impl VM {
                 }
             };
             vm.globals.startup_flag = true;
+            #[cfg(ruruby_monitor)]
+            monitor::arm();
         }
 
         #[cfg(feature = "perf")]
@@ -346,6 +348,12 @@ impl VM {
     pub fn checked_gc(&mut self) {
         #[cfg(feature = "perf")]
         self.globals.perf.get_perf(Perf::GC);
+        #[cfg(ruruby_monitor)]
+        match monitor::gc_decision() {
+            Some(true) => return self.gc(),
+            Some(false) => return,
+            None => {}
+        }
         #[cfg(not(feature = "gc-stress"))]
         {
             self.gc_count += 1;
@@ -1015,3 +1023,11 @@ impl VM {
         RegexpInfo::from_string(&mut self.globals, string).map_err(VMError::regexp)
     }
 }
+
+#[cfg(ruruby_monitor)]
+impl VM {
+    /// Called when the program ended.
+    pub fn monitor_end(&self) {
+        monitor::write_stats(self.temp_len());
+    }
+}
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index de74462..bdde981 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -123,3 +123,21 @@ impl VM {
         }
     }
 }
+
+#[cfg(ruruby_monitor)]
+impl VM {
+    /// Compare a hit of the constant cache with an uncached lookup.
+    pub(super) fn monitor_const_hit(&mut self, id: IdentId, cached: Value) -> Value {
+        if monitor::armed() && monitor::CONFIG.cache {
+            monitor::inc(&monitor::CONST_HITS);
+            match self.find_const(id) {
+                Ok(found) if found.id() == cached.id() => {}
+                found => monitor::violation(
+                    "const-cache",
+                    format!("{:?}: cached {:?}, found {:?}", id, cached, found.ok()),
+                ),
+            }
+        }
+        cached
+    }
+}
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index cad91fd..7e35dee 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -284,6 +284,9 @@ impl VM {
                         let id = self.pc.read_id();
                         let slot = self.pc.read32();
                         let val = match self.globals.find_const_cache(slot) {
+                            #[cfg(ruruby_monitor)]
+                            Some(val) => self.monitor_const_hit(id, val),
+                            #[cfg(not(ruruby_monitor))]
                             Some(val) => val,
                             None => {
                                 let val = self.find_const(id)?;
-- 
2.43.0


From fb061e140dfef8e7f66948fd8dccc0bedc01eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 002/127] fix: resolve constants from the lexical class, not
 from the class of self

The result of a constant lookup is cached for each call site, while the lookup
depended on the class of self: a method that was first called on an instance
of a subclass with a constant of the same name kept returning that constant for
every other receiver. Inherited constants were not found in class methods.
---
 ruruby/src/vm/executor/constants.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index bdde981..0b61b80 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -42,15 +42,18 @@ impl VM {
 }
 
 impl VM {
-    /// Search lexical class stack and then, search class inheritance chain for a constant `id`,
-    /// returning the value.
+    /// Search lexical class stack and then, search class inheritance chain of the innermost lexical class
+    /// for a constant `id`, returning the value.
     /// Returns error if the constant was not defined, or autoload failed.
     pub(super) fn find_const(&mut self, id: IdentId) -> VMResult {
         match self.get_lexical_const(id)? {
             Some(v) => Ok(v),
             None => {
-                let self_val = self.self_value();
-                let class = self.globals.get_class(self_val);
+                // This must not depend on the class of self, because the result is cached for each call site.
+                let class = match self.get_method_iseq().class_defined.last() {
+                    Some(class) => *class,
+                    None => self.globals.classes.object,
+                };
                 self.get_super_const(class, id)
             }
         }
-- 
2.43.0


From 8dff35498c8f403d9640d7e6e9749814cf6d1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 003/127] fix: do not lose bits in shifts of small integers

1<<63, 3<<62 and the like wrapped around instead of giving a big integer, and a
right shift of a negative integer by 64 or more gave 0 instead of -1.
---
 ruruby/src/arith.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index f77d14d..7a74334 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -251,7 +251,7 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shr(rhs as u32) {
             Some(i) => Value::integer(i),
-            None => Value::integer(0),
+            None => Value::integer(if lhs < 0 { -1 } else { 0 }),
         }
     } else {
         Value::bignum(lhs.to_bigint().unwrap() >> rhs)
@@ -262,8 +262,9 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shl(rhs as u32) {
-            Some(i) => Value::integer(i),
-            None => {
+            // No significant bit was shifted out.
+            Some(i) if i >> rhs == lhs => Value::integer(i),
+            _ => {
                 let n = lhs.to_bigint().unwrap() << rhs;
                 Value::bignum(n)
             }
-- 
2.43.0


From 243f06837c75346a2bcd1f0b9153f973e13274a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 004/127] fix: Integer#div of integers is exact

The quotient was computed with floats, so that large integers lost digits.
---
 ruruby/src/value/real.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index f36f96a..78f55fa 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -57,6 +57,9 @@ impl Real {
     }
 
     pub(crate) fn quotient(self, other: Self) -> Self {
+        if !matches!(self, Real::Float(_)) && !matches!(other, Real::Float(_)) {
+            return self / other;
+        }
         let quo = (self.to_f64() / other.to_f64()).floor();
         match ToPrimitive::to_i64(&quo) {
             Some(i) => Real::Integer(i),
-- 
2.43.0


From 1c3dad07817b34253ca33ac837a315c19b014a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 005/127] fix: Integer#digits stopped at the first digit that
 is zero

404.digits was [4]. It panicked for large integers, and did not end for base 1.
---
 ruruby/src/builtin/integer.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index e2cf4b6..433b239 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -817,17 +817,21 @@ fn digits(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
     };
     let mut ary = vec![];
-    let mut self_ = self_val.as_fixnum().unwrap();
-    if self_ < 0 {
+    if base == 1 {
+        return Err(RubyError::argument("Invalid radix 1."));
+    }
+    let mut self_ = match self_val.as_fixnum() {
+        Some(i) => BigInt::from(i),
+        None => self_val.as_bignum().unwrap().clone(),
+    };
+    if self_.is_negative() {
         return Err(RubyError::math_domain("Out of domain."));
     }
-    loop {
-        let r = self_ % base;
-        self_ = self_ / base;
-        if r == 0 {
-            break;
-        }
-        ary.push(Value::integer(r));
+    let base = BigInt::from(base);
+    while !self_.is_zero() {
+        let (q, r) = self_.div_rem(&base);
+        self_ = q;
+        ary.push(Value::bignum(r));
     }
     if ary.len() == 0 {
         ary.push(Value::integer(0))
-- 
2.43.0


From e51622d9600cc1b9e39846d7b308994be3f84d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 006/127] fix: Integer#[] beyond the size of a negative integer
 is its sign bit

---
 ruruby/src/builtin/integer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 433b239..7484038 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -165,19 +165,21 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     if let Some(i) = self_val.as_fixnum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(index) = vm[0].as_bignum() {
+            let sign = i < 0 && index.is_positive();
+            return Ok(Value::integer(sign as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
-        let val = if index < 0 || 63 < index {
+        let val = if index < 0 {
             0
         } else {
-            (i >> index) & 1
+            (i >> index.min(63)) & 1
         };
         Ok(Value::integer(val))
     } else if let Some(i) = self_val.as_bignum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(index) = vm[0].as_bignum() {
+            let sign = i.is_negative() && index.is_positive();
+            return Ok(Value::integer(sign as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
         let val = if index < 0 {
-- 
2.43.0


From bf1ef3b5d18e32e664caa289e0f20ff94e0920b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 007/127] fix: modulo of floats with operands of opposite signs

The formula for integers was used: -0.5 % 0.3 was -0.5 instead of 0.1, and other
results had rounding errors.
---
 ruruby/src/arith.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index 7a74334..f72689c 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -75,12 +75,11 @@ pub(crate) fn rem_float(lhsf: f64, rhs: Value) -> VMResult {
 }
 
 pub(crate) fn rem_floorf64(self_: f64, other: f64) -> f64 {
-    if self_ > 0.0 && other < 0.0 {
-        ((self_ - 1.0) % other) + other + 1.0
-    } else if self_ < 0.0 && other > 0.0 {
-        ((self_ + 1.0) % other) + other - 1.0
+    let rem = self_ % other;
+    if rem != 0.0 && (rem < 0.0) != (other < 0.0) {
+        rem + other
     } else {
-        self_ % other
+        rem
     }
 }
 
-- 
2.43.0


From 5eed5a33d43f84d4f1b17682f15976caf302605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 008/127] fix: convert floats beyond 64 bits to big integers,
 and reject NaN and infinity

to_i, floor and Integer() saturated at the limits of 64 bit integers and gave 0
for NaN, and div panicked for a quotient that is not finite.
---
 ruruby/src/arith.rs           | 10 +++++++++-
 ruruby/src/builtin/float.rs   |  7 +++----
 ruruby/src/builtin/integer.rs |  2 +-
 ruruby/src/builtin/kernel.rs  |  2 +-
 ruruby/src/value/real.rs      | 11 ++++-------
 5 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index f72689c..7b55361 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -1,4 +1,4 @@
-use crate::num::{Integer, Signed, ToPrimitive, Zero};
+use crate::num::{FromPrimitive, Integer, Signed, ToPrimitive, Zero};
 use crate::num_bigint::{BigInt, ToBigInt};
 use crate::*;
 use divrem::RemFloor;
@@ -83,6 +83,14 @@ pub(crate) fn rem_floorf64(self_: f64, other: f64) -> f64 {
     }
 }
 
+/// Convert float to integer, discarding the fractional part.
+pub(crate) fn float_to_integer(f: f64) -> VMResult {
+    match BigInt::from_f64(f) {
+        Some(n) => Ok(Value::bignum(n)),
+        None => Err(RubyError::range(format!("{} Out of range of Integer.", f))),
+    }
+}
+
 /// exponential operation (**)
 pub(crate) fn exp_fixnum(lhsi: i64, rhs: Value) -> VMResult {
     let val = if let Some(rhsi) = rhs.as_fixnum() {
diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index d050653..cb6bb65 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -67,7 +67,7 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            lhs.quotient(rhs)
         }
         None => Err(VMError::undefined_op("div", vm[0], self_val)),
     }
@@ -89,7 +89,7 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn floor(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let lhs = self_val.as_float().unwrap();
-    Ok(Value::integer(lhs.floor() as i64))
+    arith::float_to_integer(lhs.floor())
 }
 
 /// abs -> Float
@@ -104,8 +104,7 @@ fn abs(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn toi(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     //args.check_args_num( 1, 1)?;
-    let num = self_val.as_float().unwrap().trunc() as i64;
-    Ok(Value::integer(num))
+    arith::float_to_integer(self_val.as_float().unwrap())
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 7484038..8bc130b 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -122,7 +122,7 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            lhs.quotient(rhs)
         }
         None => Err(VMError::cant_coerse(vm[0], "Numeric")),
     }
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 0d82b16..8166392 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -325,7 +325,7 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     let val = match arg0.unpack() {
         RV::Integer(num) => num,
-        RV::Float(num) => num as i64,
+        RV::Float(num) => return arith::float_to_integer(num),
         RV::Object(obj) => match obj.kind() {
             ObjKind::STRING => match obj.string().parse::<i64>() {
                 Some(num) => num,
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index 78f55fa..1815914 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use num::{BigInt, FromPrimitive, Integer, Signed, ToPrimitive, Zero};
+use num::{BigInt, Integer, Signed, ToPrimitive, Zero};
 
 /// This module represents real values and their basic calculations.
 #[derive(Clone)]
@@ -56,15 +56,12 @@ impl Real {
         self.clone() * self
     }
 
-    pub(crate) fn quotient(self, other: Self) -> Self {
+    pub(crate) fn quotient(self, other: Self) -> VMResult {
         if !matches!(self, Real::Float(_)) && !matches!(other, Real::Float(_)) {
-            return self / other;
+            return Ok((self / other).into_val());
         }
         let quo = (self.to_f64() / other.to_f64()).floor();
-        match ToPrimitive::to_i64(&quo) {
-            Some(i) => Real::Integer(i),
-            None => Real::Bignum(FromPrimitive::from_f64(quo).unwrap()),
-        }
+        arith::float_to_integer(quo)
     }
 
     pub(crate) fn divide(self, other: Real) -> Real {
-- 
2.43.0


From 3ce121ab6d8487dad7324eed14a372d9f54fbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 009/127] fix: String#to_i reads the leading integer, of any
 size

It gave 0 for text that follows the number, for white space, underscores and for
numbers beyond 64 bits. Integer() rejected big integers and floats outside the
packed range.
---
 ruruby/src/builtin/kernel.rs |  6 ++++--
 ruruby/src/builtin/string.rs | 29 +++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 8166392..a519c66 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -327,8 +327,10 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         RV::Integer(num) => num,
         RV::Float(num) => return arith::float_to_integer(num),
         RV::Object(obj) => match obj.kind() {
-            ObjKind::STRING => match obj.string().parse::<i64>() {
-                Some(num) => num,
+            ObjKind::BIGNUM => return Ok(arg0),
+            ObjKind::FLOAT => return arith::float_to_integer(obj.float()),
+            ObjKind::STRING => match obj.string().parse::<num::BigInt>() {
+                Some(num) => return Ok(Value::bignum(num)),
                 None => {
                     let inspect = vm.val_inspect(arg0)?;
                     return Err(RubyError::argument(format!(
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index dac6650..2c97b53 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1,5 +1,6 @@
 use crate::vm::*;
 use crate::*;
+use num::BigInt;
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
@@ -957,11 +958,31 @@ fn toi(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Ok(s) => s,
         Err(_) => return Ok(Value::integer(0)),
     };
-    let i: i64 = match self_.parse() {
-        Ok(i) => i,
-        Err(_) => 0,
+    Ok(Value::bignum(leading_integer(self_)))
+}
+
+/// Get the integer that is written at the head of `s`.
+fn leading_integer(s: &str) -> BigInt {
+    let s = s.trim_start();
+    let (negative, s) = match s.strip_prefix('-') {
+        Some(s) => (true, s),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
     };
-    Ok(Value::integer(i))
+    let mut digits = String::new();
+    let mut chars = s.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '0'..='9' => digits.push(c),
+            '_' if !digits.is_empty() && matches!(chars.peek(), Some('0'..='9')) => {}
+            _ => break,
+        }
+    }
+    let n = digits.parse().unwrap_or_else(|_| BigInt::from(0));
+    if negative {
+        -n
+    } else {
+        n
+    }
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-- 
2.43.0


From f1567ac993f13a015a0dff5a43dd1f03833ff719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 010/127] fix: bit operations of big integers: ^ and ~, sign
 left by huge shifts

^ and ~ of integers beyond 62 bits raised NoMethodError, and shifting a negative
integer out by more than 2**62 gave 0 instead of -1.
---
 ruruby/src/builtin/integer.rs | 41 +++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 8bc130b..f3cf7f8 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -2,7 +2,7 @@ use crate::*;
 use num::Integer;
 use num::{bigint::ToBigInt, BigInt, Signed, ToPrimitive, Zero};
 use std::convert::TryInto;
-use std::ops::{BitAnd, BitOr};
+use std::ops::{BitAnd, BitOr, BitXor};
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under(BuiltinClass::numeric());
@@ -26,6 +26,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "<<", shl);
     class.add_builtin_method_by_str(globals, "&", band);
     class.add_builtin_method_by_str(globals, "|", bor);
+    class.add_builtin_method_by_str(globals, "^", bxor);
+    class.add_builtin_method_by_str(globals, "~", bnot);
 
     class.add_builtin_method_by_str(globals, "abs", abs);
     class.add_builtin_method_by_str(globals, "floor", floor);
@@ -199,7 +201,7 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shr_fixnum(lhs, rhs),
-            None => shr_bignum(rhs),
+            None => shr_bignum(self_val, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -210,18 +212,18 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs << -rhs))
                 }
             }
-            None => shr_bignum(rhs),
+            None => shr_bignum(self_val, rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shr_bignum(rhs: Value) -> VMResult {
+fn shr_bignum(lhs: Value, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if !rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(shifted_out(lhs))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
@@ -236,7 +238,7 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shl_fixnum(lhs, rhs),
-            None => shl_bignum(rhs),
+            None => shl_bignum(self_val, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -247,18 +249,18 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs >> -rhs))
                 }
             }
-            None => shl_bignum(rhs),
+            None => shl_bignum(self_val, rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shl_bignum(rhs: Value) -> VMResult {
+fn shl_bignum(lhs: Value, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(shifted_out(lhs))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
@@ -267,6 +269,15 @@ fn shl_bignum(rhs: Value) -> VMResult {
     }
 }
 
+/// All the bits of an integer were shifted out to the right: its sign is left.
+fn shifted_out(lhs: Value) -> Value {
+    let negative = match lhs.as_fixnum() {
+        Some(lhs) => lhs < 0,
+        None => lhs.as_bignum().map_or(false, |lhs| lhs.is_negative()),
+    };
+    Value::integer(if negative { -1 } else { 0 })
+}
+
 macro_rules! bit_ops {
     ($fname:ident, $op:ident) => {
         fn $fname(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -298,6 +309,18 @@ macro_rules! bit_ops {
 
 bit_ops!(band, bitand);
 bit_ops!(bor, bitor);
+bit_ops!(bxor, bitxor);
+
+fn bnot(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    if let Some(i) = self_val.as_fixnum() {
+        Ok(Value::integer(!i))
+    } else if let Some(i) = self_val.as_bignum() {
+        Ok(Value::bignum(!i.clone()))
+    } else {
+        unreachable!()
+    }
+}
 
 #[test]
 fn integer_bitwise_ops() {
-- 
2.43.0


From e10f5834e8c5d8e5663843641f99f9152e1b4b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 011/127] fix: integer[i] with a literal index past 63, and ~
 of objects that define it

(-1)[64] gave 0 with a literal index, and ~ never called a method.
---
 ruruby/src/vm/executor/ops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8afa8e2..470f2a5 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -243,7 +243,7 @@ impl VM {
         let lhs = self.stack_pop();
         let v = match lhs.unpack() {
             RV::Integer(lhs) => Value::integer(!lhs),
-            _ => return Err(VMError::undefined_method(IdentId::get_id("~"), lhs)),
+            _ => return self.invoke_send0(IdentId::get_id("~"), lhs),
         };
         Ok(VMResKind::Return(v))
     }
@@ -588,7 +588,8 @@ impl VM {
             },
             None => {
                 if let Some(i) = receiver.as_fixnum() {
-                    let val = if 63 < idx { 0 } else { (i >> idx) & 1 };
+                    // The bits beyond the size of an integer are its sign bit.
+                    let val = (i >> idx.min(63)) & 1;
                     return Ok(VMResKind::Return(Value::integer(val)));
                 }
             }
-- 
2.43.0


From 5663481ad97ea7fa80b58abcbb4d905627d29919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 012/127] fix: == and === ask the receiver's method

case/when, any?, all? and grep never called the === of a range, a proc or an
object of a class that defines it; obj == value ignored a == defined by obj's
class when value was nil, a number or a symbol, and swallowed the exceptions it
raised; == and === called as methods compared strings and arrays by identity.
---
 ruruby/src/builtin/object.rs  |  20 ++++++-
 ruruby/src/builtin/procobj.rs |   1 +
 ruruby/src/builtin/range.rs   |  15 +++++
 ruruby/src/vm/executor/ops.rs | 101 ++++++++++++++++++++--------------
 4 files changed, 93 insertions(+), 44 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 5815b58..12781b4 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -11,8 +11,8 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "to_s", to_s);
     object.add_builtin_method_by_str(globals, "inspect", inspect);
     object.add_builtin_method_by_str(globals, "equal?", equal);
-    object.add_builtin_method_by_str(globals, "==", equal);
-    object.add_builtin_method_by_str(globals, "===", equal);
+    object.add_builtin_method_by_str(globals, "==", eq);
+    object.add_builtin_method_by_str(globals, "===", teq);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
     object.add_builtin_method_by_str(globals, "eql?", eql);
@@ -180,6 +180,22 @@ fn equal(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(self_val.id() == vm[0].id()))
 }
 
+fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let other = vm[0];
+    let b = match vm.eval_eq_builtin(other, self_val)? {
+        Some(b) => b,
+        None => self_val.id() == other.id(),
+    };
+    Ok(Value::bool(b))
+}
+
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(b))
+}
+
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     let receiver = self_val;
diff --git a/ruruby/src/builtin/procobj.rs b/ruruby/src/builtin/procobj.rs
index 5d524c4..25795fb 100644
--- a/ruruby/src/builtin/procobj.rs
+++ b/ruruby/src/builtin/procobj.rs
@@ -39,6 +39,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "call", proc_call);
     class.add_builtin_method_by_str(globals, "[]", proc_call);
+    class.add_builtin_method_by_str(globals, "===", proc_call);
 
     class.add_builtin_class_method(globals, "new", proc_new);
     class.into()
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 83289b5..bb34197 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -51,6 +51,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "to_a", to_a);
     class.add_builtin_method_by_str(globals, "exclude_end?", exclude_end);
     class.add_builtin_method_by_str(globals, "include?", include);
+    class.add_builtin_method_by_str(globals, "===", teq);
 
     class.add_builtin_class_method(globals, "new", range_new);
     class.into()
@@ -240,6 +241,20 @@ fn exclude_end(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(range.exclude))
 }
 
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let range = self_val.as_range().unwrap().clone();
+    let val = vm[0];
+    let b = match vm.eval_compare(val, range.start)?.as_fixnum() {
+        Some(ord) if ord <= 0 => match vm.eval_compare(range.end, val)?.as_fixnum() {
+            Some(ord) => ord < 0 || (ord == 0 && !range.exclude),
+            None => false,
+        },
+        _ => false,
+    };
+    Ok(Value::bool(b))
+}
+
 fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let range = self_val.as_range().unwrap();
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 470f2a5..241372e 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -306,16 +306,7 @@ macro_rules! eval_cmp_i {
 impl VM {
     pub(super) fn invoke_teq(&mut self) -> InvokeResult {
         let (lhs, rhs) = self.stack_pop2();
-        let b = match lhs.as_rvalue() {
-            Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
-                    return self.invoke_send1(IdentId::_TEQ, lhs, rhs);
-                }
-                ObjKind::REGEXP => self.teq_regexp(oref, rhs)?,
-                _ => self.eval_eq2(rhs, lhs)?,
-            },
-            None => self.eval_eq2(rhs, lhs)?,
-        };
+        let b = self.eval_teq(rhs, lhs)?;
         Ok(VMResKind::Return(Value::bool(b)))
     }
 
@@ -335,14 +326,18 @@ impl VM {
     pub(crate) fn eval_teq(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
+                ObjKind::MODULE
+                | ObjKind::CLASS
+                | ObjKind::ORDINARY
+                | ObjKind::RANGE
+                | ObjKind::PROC => {
                     let v = self.eval_send1(IdentId::_TEQ, lhs, rhs)?;
                     Ok(v.to_bool())
                 }
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs),
-                _ => self.eval_eq2(lhs, rhs),
+                _ => self.eval_eq2(rhs, lhs),
             },
-            None => self.eval_eq2(lhs, rhs),
+            None => self.eval_eq2(rhs, lhs),
         }
     }
 
@@ -356,68 +351,92 @@ impl VM {
     ///
     /// ex. 3.0 == 3.
     pub(crate) fn eval_eq2(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
+        match self.eval_eq_builtin(rhs, lhs)? {
+            Some(b) => Ok(b),
+            None => Ok(self.eval_send1(IdentId::_EQ, lhs, rhs)?.to_bool()),
+        }
+    }
+
+    /// Equality of builtin values. None if it is up to the method `==` of `lhs`.
+    pub(crate) fn eval_eq_builtin(
+        &mut self,
+        rhs: Value,
+        lhs: Value,
+    ) -> Result<Option<bool>, RubyError> {
         if let Some(lhsi) = lhs.as_fixnum() {
             if let Some(rhsi) = rhs.as_fixnum() {
-                return Ok(lhsi == rhsi);
+                return Ok(Some(lhsi == rhsi));
             } else if let Some(rhsf) = rhs.as_flonum() {
-                return Ok(lhsi as f64 == rhsf);
+                return Ok(Some(lhsi as f64 == rhsf));
             }
         } else if let Some(lhsf) = lhs.as_flonum() {
             if let Some(rhsf) = rhs.as_flonum() {
                 if lhsf.is_nan() && rhsf.is_nan() {
-                    return Ok(false);
+                    return Ok(Some(false));
                 } else {
-                    return Ok(lhsf == rhsf);
+                    return Ok(Some(lhsf == rhsf));
                 }
             } else if let Some(rhsi) = rhs.as_fixnum() {
-                return Ok(rhsi as f64 == lhsf);
+                return Ok(Some(rhsi as f64 == lhsf));
             }
         }
-        if rhs.is_packed_value() || lhs.is_packed_value() {
-            return Ok(lhs.id() == rhs.id());
+        if lhs.is_packed_value() || rhs.is_packed_value() {
+            return Ok(match (lhs.unpack(), rhs.unpack()) {
+                (RV::Float(f), RV::Object(obj)) | (RV::Object(obj), RV::Float(f))
+                    if obj.kind() == ObjKind::BIGNUM =>
+                {
+                    Some(obj.bignum().to_f64().unwrap() == f)
+                }
+                (RV::Object(obj), _) if obj.kind() == ObjKind::ORDINARY => None,
+                _ => Some(lhs.id() == rhs.id()),
+            });
         }
+        let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
         if lhs.id() == rhs.id() {
-            return Ok(true);
+            return Ok(match lhsr.kind() {
+                ObjKind::ORDINARY => None,
+                ObjKind::FLOAT => Some(!lhsr.float().is_nan()),
+                _ => Some(true),
+            });
         };
-        let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
-        match (lhsr.kind(), rhsr.kind()) {
-            (ObjKind::BIGNUM, ObjKind::BIGNUM) => Ok(*lhsr.bignum() == *rhsr.bignum()),
-            (ObjKind::FLOAT, ObjKind::FLOAT) => Ok(lhsr.float() == rhsr.float()),
+        let b = match (lhsr.kind(), rhsr.kind()) {
+            (ObjKind::BIGNUM, ObjKind::BIGNUM) => *lhsr.bignum() == *rhsr.bignum(),
+            (ObjKind::FLOAT, ObjKind::FLOAT) => lhsr.float() == rhsr.float(),
             (ObjKind::BIGNUM, ObjKind::FLOAT) => {
-                Ok(lhsr.bignum().to_f64().unwrap() == rhsr.float())
+                lhsr.bignum().to_f64().unwrap() == rhsr.float()
             }
             (ObjKind::FLOAT, ObjKind::BIGNUM) => {
-                Ok(lhsr.float() == rhsr.bignum().to_f64().unwrap())
+                lhsr.float() == rhsr.bignum().to_f64().unwrap()
             }
             (ObjKind::COMPLEX, ObjKind::COMPLEX) => {
                 let RubyComplex { r: r1, i: i1 } = *lhsr.complex();
                 let RubyComplex { r: r2, i: i2 } = *rhsr.complex();
-                Ok(r1.to_real() == r2.to_real() && i1.to_real() == i2.to_real())
+                r1.to_real() == r2.to_real() && i1.to_real() == i2.to_real()
             }
             (ObjKind::STRING, ObjKind::STRING) => {
-                Ok(lhsr.string().as_bytes() == rhsr.string().as_bytes())
+                lhsr.string().as_bytes() == rhsr.string().as_bytes()
             }
             (ObjKind::ARRAY, ObjKind::ARRAY) => {
                 let (lhs, rhs) = (&*lhsr.array(), &*rhsr.array());
                 if lhs.len() != rhs.len() {
-                    return Ok(false);
+                    return Ok(Some(false));
                 }
                 for (l, r) in lhs.iter().zip(rhs.iter()) {
                     if !self.eval_eq2(*r, *l)? {
-                        return Ok(false);
+                        return Ok(Some(false));
                     }
                 }
-                Ok(true)
+                true
             }
             (ObjKind::RANGE, ObjKind::RANGE) => {
                 let (lhs, rhs) = (&*lhsr.range(), &*rhsr.range());
-                Ok(rhs.exclude == lhs.exclude
+                rhs.exclude == lhs.exclude
                     && self.eval_eq2(rhs.start, lhs.start)?
-                    && self.eval_eq2(rhs.end, lhs.end)?)
+                    && self.eval_eq2(rhs.end, lhs.end)?
             }
-            (ObjKind::HASH, ObjKind::HASH) => Ok(*lhsr.rhash() == *rhsr.rhash()),
-            (ObjKind::REGEXP, ObjKind::REGEXP) => Ok(*lhsr.regexp() == *rhsr.regexp()),
-            (ObjKind::TIME, ObjKind::TIME) => Ok(*lhsr.time() == *rhsr.time()),
+            (ObjKind::HASH, ObjKind::HASH) => *lhsr.rhash() == *rhsr.rhash(),
+            (ObjKind::REGEXP, ObjKind::REGEXP) => *lhsr.regexp() == *rhsr.regexp(),
+            (ObjKind::TIME, ObjKind::TIME) => *lhsr.time() == *rhsr.time(),
             (ObjKind::INVALID, _) | (_, ObjKind::INVALID) => {
                 return Err(RubyError::internal(format!(
                     "Invalid rvalue. (maybe GC problem) {:?} {:?}",
@@ -425,11 +444,9 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
-            (_, _) => match self.eval_send1(IdentId::_EQ, lhs, rhs) {
-                Ok(v) => Ok(v.to_bool()),
-                _ => Ok(false),
-            },
-        }
+            (_, _) => return Ok(None),
+        };
+        Ok(Some(b))
     }
 
     pub(super) fn eval_eq(&mut self) -> Result<bool, RubyError> {
-- 
2.43.0


From 11954ea6bb7f6a892a63468efb79d5aca5d68d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 013/127] fix: raise keeps the class it is given, and raises
 RuntimeError for a text

---
 ruruby/src/builtin/kernel.rs | 47 ++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index a519c66..203b975 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -213,29 +213,46 @@ fn dir(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// fail(error_type, message = nil, backtrace = caller(0), cause: $!) -> ()
 fn raise(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 2)?;
-    match args.len() {
-        0 => Err(RubyError::none("")),
+    let exception = match args.len() {
+        0 => new_runtime_error(vm, "unhandled exception"),
         1 => {
             let arg0 = vm[0];
             if let Some(s) = arg0.as_string() {
-                Err(RubyError::none(s))
-            } else if arg0.is_class() {
-                if arg0.is_exception_class() {
-                    let method = arg0.get_method_or_nomethod(&mut vm.globals, IdentId::NEW)?;
-                    vm.globals.val = vm.eval_method0(method, arg0)?;
-                    Err(RubyError::value())
-                } else {
-                    Err(RubyError::typeerr("Exception class/object expected."))
-                }
+                let msg = s.to_string();
+                new_runtime_error(vm, &msg)
+            } else if arg0.is_class() && arg0.is_exception_class() {
+                vm.eval_send0(IdentId::NEW, arg0)?
             } else if arg0.if_exception().is_some() {
-                vm.globals.val = arg0;
-                Err(RubyError::value())
+                arg0
             } else {
-                Err(RubyError::typeerr("Exception class/object expected."))
+                return Err(RubyError::typeerr("Exception class/object expected."));
             }
         }
-        _ => Err(RubyError::none(vm[1].clone().expect_string("2nd arg")?)),
+        _ => {
+            let (arg0, arg1) = (vm[0], vm[1]);
+            if arg0.is_class() && arg0.is_exception_class() {
+                vm.eval_send1(IdentId::NEW, arg0, arg1)?
+            } else if arg0.if_exception().is_some() {
+                let msg = arg1.clone().expect_string("2nd arg")?.to_string();
+                Value::exception(arg0.rvalue().real_class(), RubyError::none(msg))
+            } else {
+                return Err(RubyError::typeerr("Exception class/object expected."));
+            }
+        }
+    };
+    if exception.if_exception().is_none() {
+        return Err(RubyError::typeerr("Exception object expected."));
     }
+    vm.globals.val = exception;
+    Err(RubyError::value())
+}
+
+fn new_runtime_error(vm: &VM, msg: &str) -> Value {
+    let class = vm
+        .globals
+        .get_toplevel_constant("RuntimeError")
+        .into_module();
+    Value::exception(class, RubyError::none(msg))
 }
 
 /// rand(max = 0) -> Integer | Float
-- 
2.43.0


From b0561ccc43d931e47ec5608a344dfd1b68d941f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 014/127] fix: array index and length limits, and assignment of
 an array to a part of itself

---
 ruruby/src/value/array.rs | 50 ++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index c62cc5c..33ff003 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -73,6 +73,20 @@ impl Array {
     pub(crate) fn id(self) -> u64 {
         self.0.id()
     }
+
+    /// Iterates over the elements by position. The array may be changed meanwhile.
+    pub(crate) fn live_iter(self) -> impl Iterator<Item = Value> {
+        let mut i = 0;
+        std::iter::from_fn(move || {
+            let elem = self.as_ref().get(i).copied();
+            i += 1;
+            elem
+        })
+    }
+
+    fn as_ref(&self) -> &[Value] {
+        &**self
+    }
 }
 
 const ARRAY_INLINE: usize = 4;
@@ -207,6 +221,17 @@ impl ArrayInfo {
 }
 
 impl ArrayInfo {
+    /// No array is longer than this.
+    const MAX_LEN: usize = (i64::MAX / 8 / 2) as usize;
+
+    fn check_len(len: usize) -> Result<(), RubyError> {
+        if len > Self::MAX_LEN {
+            Err(RubyError::index("Index too big for array."))
+        } else {
+            Ok(())
+        }
+    }
+
     /// Calculate array index.
     /// if `index` is a zero or positeve integer, return `index`.
     /// Else, return `len` + `index.`
@@ -228,15 +253,18 @@ impl ArrayInfo {
         };
         let index = args[0].coerce_to_fixnum("Index")?;
         let self_len = self.len();
-        let index = self.get_array_index(index).unwrap_or(self_len);
         let len = args[1].coerce_to_fixnum("Index")?;
+        let index = match self.get_array_index(index) {
+            Ok(index) if index <= self_len => index,
+            _ => return Ok(Value::nil()),
+        };
         let val = if len < 0 {
             Value::nil()
         } else if index >= self_len {
             Value::array_empty()
         } else {
             let len = len as usize;
-            let end = std::cmp::min(self_len, index + len);
+            let end = std::cmp::min(self_len, index.saturating_add(len));
             Value::array_from_slice(&self[index..end])
         };
         Ok(val)
@@ -254,7 +282,7 @@ impl ArrayInfo {
                 i if i < 0 => len + i,
                 i => i,
             };
-            let start = if len < i_start {
+            let start = if len < i_start || i_start < 0 {
                 return Ok(Value::nil());
             } else if len == i_start {
                 return Ok(Value::array_empty());
@@ -263,14 +291,14 @@ impl ArrayInfo {
             };
             let i_end = range.end.coerce_to_fixnum("End of the range")?;
             let end = if i_end >= 0 {
-                let end = i_end as usize + if range.exclude { 0 } else { 1 };
+                let end = (i_end as usize).saturating_add(if range.exclude { 0 } else { 1 });
                 if self.len() < end {
                     self.len()
                 } else {
                     end
                 }
             } else {
-                (len + i_end + if range.exclude { 0 } else { 1 }) as usize
+                std::cmp::max(0, len + i_end + if range.exclude { 0 } else { 1 }) as usize
             };
             if start >= end {
                 return Ok(Value::array_empty());
@@ -307,6 +335,7 @@ impl ArrayInfo {
     pub(crate) fn set_elem1(&mut self, idx: Value, val: Value) -> VMResult {
         if let Some(index) = idx.as_fixnum() {
             if index >= 0 {
+                Self::check_len(index as usize)?;
                 self.set_elem_imm(index as usize, val);
             } else {
                 let index = self.get_array_index(index)?;
@@ -320,7 +349,8 @@ impl ArrayInfo {
             };
             let last = {
                 let i = range.end.coerce_to_fixnum("End of the range")?;
-                self.get_array_index(i)? + if range.exclude { 0 } else { 1 }
+                let i = if i < 0 { self.len() as i64 + i } else { i };
+                std::cmp::max(0, i + if range.exclude { 0 } else { 1 }) as usize
             };
             if last < first {
                 self.set_elem2(first, 0, val)
@@ -334,12 +364,14 @@ impl ArrayInfo {
     }
 
     pub(crate) fn set_elem2(&mut self, index: usize, length: usize, val: Value) -> VMResult {
+        Self::check_len(index)?;
         let len = self.len();
         match val.as_array() {
             Some(ary) => {
-                // if self = ary, something wrong happens..
+                // The values are copied beforehand because `val` may be this array.
+                let ary = ary.to_vec();
                 let ary_len = ary.len();
-                if index >= len || index + length > len {
+                if index >= len || length > len - index {
                     self.resize(index + ary_len, Value::nil());
                 } else if ary_len > length {
                     // possibly self == ary
@@ -359,7 +391,7 @@ impl ArrayInfo {
                     self.push(Value::nil());
                     self.copy_within(index..len, index + 1);
                 } else {
-                    let end = index + length;
+                    let end = index.saturating_add(length);
                     if end < len {
                         self.copy_within(end..len, index + 1);
                         self.truncate(len + 1 - length);
-- 
2.43.0


From cefef7f6ae623527ffcbef0b62e8ff77c335bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 015/127] fix: array methods follow the array while their block
 changes it, and treat every length

---
 ruruby/src/builtin/array.rs | 329 ++++++++++++++++++++----------------
 1 file changed, 182 insertions(+), 147 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 191865f..5821ecd 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -88,6 +88,9 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
+/// Arrays of more elements than this do not fit into the address space.
+const MAX_ARRAY_LEN: i64 = i64::MAX / 8 / 2;
+
 // Class methods
 
 fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -100,6 +103,9 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 if num < 0 {
                     return Err(RubyError::argument("Negative array size."));
                 };
+                if num > MAX_ARRAY_LEN {
+                    return Err(RubyError::argument("Array size too big."));
+                };
                 vec![Value::nil(); num as usize]
             }
             RV::Object(oref) => match oref.kind() {
@@ -113,6 +119,9 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if num < 0 {
                 return Err(RubyError::argument("Negative array size."));
             };
+            if num > MAX_ARRAY_LEN {
+                return Err(RubyError::argument("Array size too big."));
+            };
             vec![vm[1]; num as usize]
         }
         _ => unreachable!(),
@@ -267,9 +276,7 @@ fn shift(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     let mut ary = self_val.into_array();
     if array_flag {
-        if ary.len() < num {
-            return Ok(Value::array_empty().into());
-        }
+        let num = std::cmp::min(num, ary.len());
         let new = ArrayInfo::new_from_slice(&ary[num..]);
         let res = Value::array_from_slice(&ary[0..num]);
         *ary = new;
@@ -313,26 +320,18 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(num) = vm[0].as_fixnum() {
         let v = match num {
             i if i < 0 => return Err(RubyError::argument("Negative argument.")),
+            i if (ary.len() as i64).checked_mul(i).map_or(true, |len| len > MAX_ARRAY_LEN) => {
+                return Err(RubyError::argument("Argument too big."))
+            }
             i => ary.repeat(i as usize),
         };
         let res = Value::array_from_with_class(v, vm.globals.get_class(self_val));
         Ok(res.into())
     } else if let Some(s) = vm[0].clone().as_string() {
-        match ary.len() {
-            0 => return Ok(Value::string("")),
-            1 => {
-                let res = ary[0].val_to_s(vm)?;
-                return Ok(Value::string(res));
-            }
-            _ => {
-                let mut res = ary[0].val_to_s(vm)?.to_string();
-                for i in 1..ary.len() {
-                    let elem = ary[i].val_to_s(vm)?;
-                    res = res + s + &elem;
-                }
-                return Ok(Value::string(res));
-            }
-        };
+        let sep = s.to_string();
+        let mut res = String::new();
+        join_elems(vm, self_val, &sep, &mut vec![], &mut res, &mut true)?;
+        return Ok(Value::string(res));
     } else {
         return Err(VMError::no_implicit_conv(vm[0], "Integer"));
     }
@@ -356,19 +355,20 @@ fn concat(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs_v = &**self_val.expect_array("Receiver")?;
-    let rhs_v = &**vm[0].expect_array("Argument")?;
+    vm[0].expect_array("Argument")?;
+    let rhs_v = vm[0].into_array();
     let mut v = vec![];
-    for lhs in lhs_v {
+    for lhs in self_val.into_array().live_iter() {
+        vm.temp_push(lhs);
         let mut flag = true;
-        for rhs in rhs_v {
-            if vm.eval_eq2(*lhs, *rhs)? {
+        for rhs in rhs_v.live_iter() {
+            if vm.eval_eq2(rhs, lhs)? {
                 flag = false;
                 break;
             }
         }
         if flag {
-            v.push(*lhs)
+            v.push(lhs)
         }
     }
     Ok(Value::array_from(v))
@@ -431,26 +431,15 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn flat_map(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
-    let param_num = block.to_iseq(&vm.globals).params.req;
-    let aref = vm.self_value().into_array();
     let temp_len = vm.temp_len();
-    for elem in &**aref {
-        let ary = if param_num == 0 {
-            vm.eval_block0(&block)?
-        } else if param_num == 1 {
-            vm.eval_block1(&block, *elem)?
-        } else {
-            match elem.as_array() {
-                Some(ary) => vm.eval_block(&block, &ary[0..param_num])?,
-                None => vm.eval_block1(&block, *elem)?,
-            }
-        };
-
-        match ary.as_array() {
+    let f = vm.eval_block_map1(block);
+    for elem in self_val.into_array().live_iter() {
+        let res = f(vm, elem)?;
+        match res.as_array() {
             Some(ary) => vm.temp_extend_from_slice(&**ary),
-            None => vm.temp_push(ary),
+            None => vm.temp_push(res),
         }
     }
     let val = Value::array_from(vm.temp_pop_vec(temp_len));
@@ -517,11 +506,12 @@ fn partition(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut res_true = vec![];
     let mut res_false = vec![];
     let f = vm.eval_block_map1(block);
-    for i in &**aref {
-        if f(vm, *i)?.to_bool() {
-            res_true.push(*i);
+    for elem in aref.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            res_true.push(elem);
         } else {
-            res_false.push(*i);
+            res_false.push(elem);
         };
     }
     let ary = vec![
@@ -535,8 +525,8 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let target = vm[0];
     let aref = self_val.into_array();
-    for item in aref.iter() {
-        if vm.eval_eq2(*item, target)? {
+    for item in aref.live_iter() {
+        if vm.eval_eq2(target, item)? {
             return Ok(Value::true_val());
         }
     }
@@ -639,46 +629,43 @@ fn transpose(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
-fn min(_: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-    fn to_float(val: Value) -> Result<f64, RubyError> {
-        if let Some(i) = val.as_fixnum() {
-            Ok(i as f64)
-        } else if let Some(f) = val.as_flonum() {
-            Ok(f)
-        } else {
-            Err(RubyError::typeerr(
-                "Currently, each element must be Numeric.",
-            ))
+fn min(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let mut iter = self_val.into_array().live_iter();
+    let mut min = match iter.next() {
+        Some(min) => min,
+        None => return Ok(Value::nil()),
+    };
+    for elem in iter {
+        if compare_elem(vm, elem, min)? == std::cmp::Ordering::Less {
+            min = elem;
         }
     }
+    Ok(min)
+}
 
-    let aref = self_val.into_array();
-    if aref.len() == 0 {
-        return Ok(Value::nil());
-    }
-    let mut min_obj = aref[0];
-    let mut min = to_float(min_obj)?;
-    for elem in &**aref {
-        let elem_f = to_float(*elem)?;
-        if elem_f < min {
-            min_obj = *elem;
-            min = elem_f;
-        }
+fn compare_elem(vm: &mut VM, lhs: Value, rhs: Value) -> Result<std::cmp::Ordering, RubyError> {
+    let ord = vm.eval_compare(rhs, lhs)?;
+    if ord.is_nil() {
+        return Err(RubyError::argument(format!(
+            "Comparison of {} with {} failed.",
+            lhs.get_class_name(),
+            rhs.get_class_name()
+        )));
     }
-
-    return Ok(min_obj);
+    ord.to_ordering()
 }
 
 fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let aref = self_val.into_array();
-    if aref.len() == 0 {
-        return Ok(Value::nil());
-    }
-    let mut max = aref[0];
-    for elem in &**aref {
-        if vm.eval_gt2(max, *elem)? {
-            max = *elem;
+    let mut iter = self_val.into_array().live_iter();
+    let mut max = match iter.next() {
+        Some(max) => max,
+        None => return Ok(Value::nil()),
+    };
+    for elem in iter {
+        if compare_elem(vm, elem, max)? == std::cmp::Ordering::Greater {
+            max = elem;
         };
     }
     Ok(max)
@@ -726,10 +713,12 @@ fn uniq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for elem in &**aref {
-                let res = f(vm, *elem)?;
+            for elem in aref.live_iter() {
+                vm.temp_push(elem);
+                let res = f(vm, elem)?;
+                vm.temp_push(res);
                 if h.insert(HashKey(res)) {
-                    v.push(*elem);
+                    v.push(elem);
                 };
             }
         }
@@ -765,11 +754,18 @@ fn uniq_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => {
             let mut aref = self_val.into_array();
             let f = vm.eval_block_map1(block);
-            aref.retain(|x| {
-                let res = f(vm, *x)?;
+            let mut v = vec![];
+            for elem in aref.live_iter() {
+                vm.temp_push(elem);
+                let res = f(vm, elem)?;
                 vm.temp_push(res);
-                Ok(h.insert(HashKey(res)))
-            })?
+                if h.insert(HashKey(res)) {
+                    v.push(elem);
+                };
+            }
+            let deleted = v.len() != aref.len();
+            *aref = ArrayInfo::new(v);
+            deleted
         }
     };
     if deleted {
@@ -864,27 +860,46 @@ fn join(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             None => return Err(RubyError::argument("Seperator must be String.")),
         }
     };
-    let aref = self_val.into_array();
     let mut res = String::new();
-    for elem in &**aref {
-        let s = elem.val_to_s(vm)?;
-        if res.is_empty() {
-            res = s.into_owned();
-        } else {
-            res = res + &sep + &s;
+    join_elems(vm, self_val, &sep, &mut vec![], &mut res, &mut true)?;
+    Ok(Value::string(res))
+}
+
+fn join_elems(
+    vm: &mut VM,
+    ary: Value,
+    sep: &str,
+    outer: &mut Vec<u64>,
+    res: &mut String,
+    is_first: &mut bool,
+) -> Result<(), RubyError> {
+    if outer.contains(&ary.id()) {
+        return Err(RubyError::argument("Recursive array join."));
+    }
+    outer.push(ary.id());
+    for elem in ary.into_array().live_iter() {
+        if elem.as_array().is_some() {
+            join_elems(vm, elem, sep, outer, res, is_first)?;
+            continue;
         }
+        if !*is_first {
+            res.push_str(sep);
+        }
+        *is_first = false;
+        res.push_str(&elem.val_to_s(vm)?);
     }
-    Ok(Value::string(res))
+    outer.pop();
+    Ok(())
 }
 
 fn drop(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")? as usize;
-    if num >= aref.len() {
-        return Err(RubyError::argument(format!("An argument too big. {}", num)));
+    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")?;
+    if num < 0 {
+        return Err(RubyError::argument("Attempt to drop negative size."));
     };
-    let ary = &aref[num..];
+    let ary = &aref[std::cmp::min(num as usize, aref.len())..];
     Ok(Value::array_from(ary.to_vec()))
 }
 
@@ -923,17 +938,22 @@ fn zip(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn grep(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let ary = match &args.block {
-        None => aref
-            .iter()
-            .filter_map(|x| match vm.eval_teq(*x, vm[0]) {
-                Ok(true) => Some(*x),
-                _ => None,
-            })
-            .collect(),
-        _ => unimplemented!(),
+    let pattern = vm[0];
+    let f = match &args.block {
+        None => None,
+        Some(block) => Some(vm.eval_block_map1(block)),
     };
-    Ok(Value::array_from(ary))
+    let temp_len = vm.temp_len();
+    for elem in aref.live_iter() {
+        if vm.eval_teq(elem, pattern)? {
+            let res = match &f {
+                None => elem,
+                Some(f) => f(vm, elem)?,
+            };
+            vm.temp_push(res);
+        }
+    }
+    Ok(Value::array_from(vm.temp_pop_vec(temp_len)))
 }
 
 /// ## instance method Array#sort
@@ -969,10 +989,11 @@ fn sort_by(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut ary = vec![];
     {
         let f = vm.eval_block_map1(block);
-        for v in &**self_val.as_array().unwrap() {
-            let v1 = f(vm, *v)?;
+        for v in self_val.into_array().live_iter() {
+            vm.temp_push(v);
+            let v1 = f(vm, v)?;
             vm.temp_push(v1);
-            ary.push((*v, v1));
+            ary.push((v, v1));
         }
     }
     vm.sort_by(&mut ary, |vm, a, b| {
@@ -988,8 +1009,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if vm.eval_teq(v, vm[0])? {
                 return Ok(Value::true_val());
             };
         }
@@ -1007,8 +1028,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if f(vm, v)?.to_bool() {
                     return Ok(Value::true_val());
                 };
             }
@@ -1023,8 +1044,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if !vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if !vm.eval_teq(v, vm[0])? {
                 return Ok(Value::false_val());
             };
         }
@@ -1042,8 +1063,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if !f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if !f(vm, v)?.to_bool() {
                     return Ok(Value::false_val());
                 };
             }
@@ -1066,8 +1087,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         1 => {
             let other = vm[0];
             let mut count = 0;
-            for elem in &**ary {
-                if vm.eval_eq2(*elem, other)? {
+            for elem in self_val.into_array().live_iter() {
+                if vm.eval_eq2(other, elem)? {
                     count += 1;
                 }
             }
@@ -1080,23 +1101,22 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn inject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let block = args.expect_block()?;
-    let ary = self_val.expect_array("").unwrap();
     let mut res = vm[0];
-    for elem in ary.iter() {
-        res = vm.eval_block2(block, res, *elem)?;
+    for elem in self_val.into_array().live_iter() {
+        res = vm.eval_block2(block, res, elem)?;
     }
     Ok(res)
 }
 
 fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
-    let ary = self_val.expect_array("").unwrap();
+    let ary = self_val.into_array();
     if args.len() == 1 {
         if args.block.is_some() {
             eprintln!("Warning: given block not used.")
         };
-        for (i, v) in ary.iter().enumerate() {
-            if v.eq(&vm[0]) {
+        for (i, v) in ary.live_iter().enumerate() {
+            if vm.eval_eq2(vm[0], v)? {
                 return Ok(Value::integer(i as i64));
             };
         }
@@ -1104,8 +1124,8 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let block = to_enum_str!(vm, self_val, args, "find_index");
     let f = vm.eval_block_map1(block);
-    for (i, elem) in ary.iter().enumerate() {
-        if f(vm, *elem)?.to_bool() {
+    for (i, elem) in ary.live_iter().enumerate() {
+        if f(vm, elem)?.to_bool() {
             return Ok(Value::integer(i as i64));
         };
     }
@@ -1118,9 +1138,10 @@ fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "reject");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if !f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if !f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1132,9 +1153,10 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "select");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1145,9 +1167,10 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "find");
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            return Ok(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            return Ok(elem);
         };
     }
     Ok(Value::nil())
@@ -1163,7 +1186,11 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
     if f(vm, ary[0])?.expect_bool_nil_num()? {
         return Ok(Some(0));
     };
-    if !f(vm, ary[i_max])?.expect_bool_nil_num()? {
+    let last = match ary.get(i_max) {
+        Some(last) => *last,
+        None => return Ok(None),
+    };
+    if !f(vm, last)?.expect_bool_nil_num()? {
         return Ok(None);
     };
 
@@ -1172,7 +1199,11 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
         if i_mid == i_min {
             return Ok(Some(i_max));
         };
-        if f(vm, ary[i_mid])?.expect_bool_nil_num()? {
+        let mid = match ary.get(i_mid) {
+            Some(mid) => *mid,
+            None => return Ok(None),
+        };
+        if f(vm, mid)?.expect_bool_nil_num()? {
             i_max = i_mid;
         } else {
             i_min = i_mid;
@@ -1190,7 +1221,7 @@ fn bsearch(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "bsearch");
     match binary_search(vm, ary, block)? {
-        Some(i) => Ok(ary[i]),
+        Some(i) => Ok(ary.get(i).copied().unwrap_or_default()),
         None => Ok(Value::nil()),
     }
 }
@@ -1216,14 +1247,18 @@ fn delete(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.expect_no_block()?;
     let mut aref = self_val.into_array();
     let mut removed = None;
-    aref.retain(|x| {
-        if x.eq(&arg) {
-            removed = Some(*x);
-            Ok(false)
+    let mut rest = vec![];
+    for elem in aref.live_iter() {
+        vm.temp_push(elem);
+        if vm.eval_eq2(arg, elem)? {
+            removed = Some(elem);
         } else {
-            Ok(true)
+            rest.push(elem);
         }
-    })?;
+    }
+    if removed.is_some() {
+        *aref = ArrayInfo::new(rest);
+    }
     Ok(removed.unwrap_or(Value::nil()))
 }
 
-- 
2.43.0


From f745f03bc05e22aa01ffc396524f25d21ae96078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 016/127] fix: equal strings are eql and have equal hash codes
 in every representation

---
 ruruby/src/value/string.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 789dd5e..f700e68 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -5,13 +5,27 @@ pub type SmallString = ArrayString<31>;
 
 const SMALL_STRING_CAPACITY: usize = 31;
 
-#[derive(Clone, PartialEq, Hash)]
+#[derive(Clone)]
 pub enum RString {
     Str(String),
     SmallStr(SmallString),
     Bytes(Vec<u8>),
 }
 
+// Equality and hash depend only on the contents, not on the representation.
+
+impl PartialEq for RString {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl std::hash::Hash for RString {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.as_bytes().hash(state);
+    }
+}
+
 use std::fmt;
 impl fmt::Debug for RString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -280,13 +294,3 @@ impl RString {
         }
     }
 }
-
-/*impl std::hash::Hash for RString {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
-            RString::Str(s) => s.hash(state),
-            RString::SmallStr(s) => s.hash(state),
-            RString::Bytes(b) => b.hash(state),
-        };
-    }
-}*/
-- 
2.43.0


From c73d4cbf8496c46bbf098d62faa8249052e4c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 017/127] fix: String#inspect escapes # before interpolation
 and leaves ' alone

---
 ruruby/src/value/string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index f700e68..4560626 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -30,11 +30,13 @@ use std::fmt;
 impl fmt::Debug for RString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         fn write(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-            for ch in s.chars() {
+            let mut chars = s.chars().peekable();
+            while let Some(ch) = chars.next() {
                 match ch {
-                    c @ '\'' | c @ '"' | c @ '\\' => {
+                    c @ '"' | c @ '\\' => {
                         write!(f, "\\{}", c)?;
                     }
+                    '#' if matches!(chars.peek(), Some('{' | '$' | '@')) => write!(f, "\\#")?,
                     c if '\x00' <= c && c <= '\x06' => write!(f, "\\x{:02}", c as u32)?,
                     '\x07' => write!(f, "\\a")?,
                     '\x08' => write!(f, "\\b")?,
-- 
2.43.0


From 0acfd8614471b04f6d761aec009d2db2248c6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 018/127] fix: hashes own their string keys, keep order, and
 may change while a block runs

---
 ruruby/src/builtin/hash.rs    | 36 +++++++++------
 ruruby/src/value/hash.rs      | 83 ++++++++++++++++++++++++++++-------
 ruruby/src/value/rvalue.rs    |  2 +-
 ruruby/src/vm/executor.rs     |  6 ++-
 ruruby/src/vm/executor/ops.rs |  2 +-
 5 files changed, 98 insertions(+), 31 deletions(-)

diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 33bba04..28f4fee 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -111,10 +111,11 @@ fn default(_: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// Enumerable#select { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/select.html
 fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in live_iter(self_val) {
+        vm.temp_push(k);
+        vm.temp_push(v);
         if vm.eval_block2(&method, k, v)?.to_bool() {
             res.insert(HashKey(k), v);
         };
@@ -126,10 +127,11 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// Enumerable#reject { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/reject.html
 fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in live_iter(self_val) {
+        vm.temp_push(k);
+        vm.temp_push(v);
         if !vm.eval_block2(&method, k, v)?.to_bool() {
             res.insert(HashKey(k), v);
         };
@@ -147,8 +149,7 @@ fn has_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn has_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let hash = self_val.as_hash().unwrap();
-    for v in hash.iter().map(|(_, v)| v) {
+    for (_, v) in live_iter(self_val) {
         if vm.eval_eq2(vm[0], v)? {
             return Ok(Value::bool(true));
         }
@@ -177,10 +178,9 @@ fn values(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (_, v) in hash.iter() {
+    for (_, v) in live_iter(self_val) {
         //vm.eval_block1(&block, v)?;
         f(vm, v)?;
     }
@@ -190,10 +190,9 @@ fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (k, _) in hash.iter() {
+    for (k, _) in live_iter(self_val) {
         //vm.eval_block1(&block, k)?;
         f(vm, k)?;
     }
@@ -205,10 +204,21 @@ fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Hash/i/each.html
 fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
-    for (k, v) in hash.iter() {
-        vm.eval_block2(&block, k, v)?;
+    // A block which takes one parameter gets the pair.
+    let pair = match block {
+        Block::Sym(_) => true,
+        _ => {
+            let params = &block.to_iseq(&vm.globals).params;
+            params.req + params.opt + params.post < 2
+        }
+    };
+    for (k, v) in live_iter(self_val) {
+        if pair {
+            vm.eval_block1(block, Value::array_from(vec![k, v]))?;
+        } else {
+            vm.eval_block2(block, k, v)?;
+        }
     }
 
     Ok(self_val)
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 4ffff35..160358c 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -10,20 +10,23 @@ pub enum HashInfo {
 
 impl Hash for HashInfo {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
-            HashInfo::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
-                }
-            }
-            HashInfo::IdentMap(h) => {
-                for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
-                }
-            }
+        // The order of the entries does not matter for the equality.
+        fn entry<K: Hash>(key: &K, val: &Value) -> u64 {
+            use std::hash::Hasher;
+            let mut state = fxhash::FxHasher::default();
+            key.hash(&mut state);
+            HashKey(*val).hash(&mut state);
+            state.finish()
         }
+        let sum = match self {
+            HashInfo::Map(h) => h
+                .iter()
+                .fold(0u64, |sum, (k, v)| sum.wrapping_add(entry(k, v))),
+            HashInfo::IdentMap(h) => h
+                .iter()
+                .fold(0u64, |sum, (k, v)| sum.wrapping_add(entry(&HashKey(k.0), v))),
+        };
+        sum.hash(state);
     }
 }
 
@@ -209,6 +212,18 @@ impl IntoIterator for HashInfo {
     }
 }
 
+/// Iterates over the entries which the hash has now. The hash may be changed meanwhile:
+/// entries which were removed are not visited, values are the current ones.
+pub(crate) fn live_iter(hash: Value) -> impl Iterator<Item = (Value, Value)> {
+    let keys = hash.as_hash().unwrap().keys();
+    let mut pos = 0;
+    keys.into_iter().filter_map(move |key| {
+        let (i, val) = hash.as_hash()?.entry_before(key, pos)?;
+        pos = i + 1;
+        Some((key, val))
+    })
+}
+
 impl GC<RValue> for HashInfo {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
         for (k, v) in self.iter() {
@@ -255,10 +270,48 @@ impl HashInfo {
         };
     }
 
+    /// Store `v` for `k`. A key which is a string is copied, so that
+    /// later changes of the string do not affect the hash.
+    pub(crate) fn store(&mut self, k: Value, v: Value) {
+        let k = match self {
+            HashInfo::Map(map) if k.as_rstring().is_some() && !map.contains_key(&HashKey(k)) => {
+                k.shallow_dup()
+            }
+            _ => k,
+        };
+        self.insert(k, v);
+    }
+
+    /// Find the entry whose key is the object `k`, at `pos` or before.
+    fn entry_before(&self, k: Value, pos: usize) -> Option<(usize, Value)> {
+        let mut i = std::cmp::min(pos + 1, self.len());
+        while i > 0 {
+            i -= 1;
+            let (key, val) = match self {
+                HashInfo::Map(map) => map.get_index(i).map(|(k, v)| (k.0, *v))?,
+                HashInfo::IdentMap(map) => map.get_index(i).map(|(k, v)| (k.0, *v))?,
+            };
+            if key.id() == k.id() {
+                return Some((i, val));
+            }
+        }
+        None
+    }
+
+    /// Object#eql? of hashes: the values are compared by eql?, too.
+    pub(crate) fn eql(&self, other: &Self) -> bool {
+        let is_map = |h: &HashInfo| matches!(h, HashInfo::Map(_));
+        is_map(self) == is_map(other)
+            && self.len() == other.len()
+            && self
+                .iter()
+                .all(|(k, v)| other.get(&k).map_or(false, |v2| HashKey(v) == HashKey(*v2)))
+    }
+
     pub(crate) fn remove(&mut self, k: Value) -> Option<Value> {
         match self {
-            HashInfo::Map(map) => map.remove(&HashKey(k)),
-            HashInfo::IdentMap(map) => map.remove(&IdentKey(k)),
+            HashInfo::Map(map) => map.shift_remove(&HashKey(k)),
+            HashInfo::IdentMap(map) => map.shift_remove(&IdentKey(k)),
         }
     }
 
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 0b86593..74e8ff7 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -435,7 +435,7 @@ impl RValue {
                 })
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
-            (ObjKind::HASH, ObjKind::HASH) => *self.rhash() == *other.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => self.rhash().eql(&other.rhash()),
             (ObjKind::METHOD, ObjKind::METHOD) => *self.method() == *other.method(),
             (ObjKind::UNBOUND_METHOD, ObjKind::UNBOUND_METHOD) => *self.method() == *other.method(),
             (ObjKind::INVALID, _) => panic!("Invalid rvalue. (maybe GC problem) {:?}", self),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index c02ec41..a73d0f5 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -837,7 +837,11 @@ impl VM {
         let mut hash = FxIndexMap::default();
         let p = self.sp() - arg_num * 2;
         for i in 0..arg_num {
-            let key = p[(i * 2) as isize];
+            let key = match p[(i * 2) as isize] {
+                // A key which is a string is copied.
+                key if key.as_rstring().is_some() => key.shallow_dup(),
+                key => key,
+            };
             let value = p[(i * 2 + 1) as isize];
             hash.insert(HashKey(key), value);
         }
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 241372e..bdd8e04 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -521,7 +521,7 @@ impl VM {
                         return Ok(VMResKind::Return(val));
                     }
                     ObjKind::HASH => {
-                        oref.rhash_mut().insert(idx, val);
+                        oref.rhash_mut().store(idx, val);
                         return Ok(VMResKind::Return(val));
                     }
                     _ => {}
-- 
2.43.0


From d644819317cc9c6c9dc49c26e40508615fc375d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 019/127] fix: floats print as Ruby prints them, wherever they
 are printed

---
 ruruby/src/builtin/numeric.rs |  2 +-
 ruruby/src/value/real.rs      | 25 +++++++++++++++++++++++++
 ruruby/src/value/value.rs     | 21 +++------------------
 ruruby/src/vm/executor.rs     |  8 +-------
 4 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index cafe312..7939a76 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -26,7 +26,7 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(r) => match r {
             Real::Bignum(n) => n.to_string(),
             Real::Integer(i) => i.to_string(),
-            Real::Float(f) => format!("{:?}", f),
+            Real::Float(f) => float_to_s(f),
         },
         None => match self_val.as_complex() {
             Some((r, i)) => {
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index 1815914..21fc52b 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -176,3 +176,28 @@ impl PartialOrd for Real {
         }
     }
 }
+
+/// Float#to_s: the shortest digits that read back as `f`.
+pub(crate) fn float_to_s(f: f64) -> String {
+    if f.is_nan() {
+        return "NaN".to_string();
+    }
+    if f.is_infinite() {
+        return if f > 0.0 { "Infinity" } else { "-Infinity" }.to_string();
+    }
+    let s = format!("{:e}", f);
+    let (digits, exp) = s.split_once('e').unwrap();
+    let exp: i32 = exp.parse().unwrap();
+    if (-4..16).contains(&exp) {
+        let s = format!("{}", f);
+        if s.contains('.') {
+            s
+        } else {
+            s + ".0"
+        }
+    } else {
+        let point = if digits.contains('.') { "" } else { ".0" };
+        let sign = if exp < 0 { '-' } else { '+' };
+        format!("{}{}e{}{:02}", digits, point, sign, exp.abs())
+    }
+}
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 368eca1..3aad83d 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -194,7 +194,7 @@ impl Value {
             RV::False => format!("false"),
             RV::Uninitialized => "[Uninitialized]".to_string(),
             RV::Integer(i) => format!("{}", i),
-            RV::Float(f) => Self::float_format(f),
+            RV::Float(f) => float_to_s(f),
             RV::Symbol(id) => format!(":\"{:?}\"", id),
             RV::Object(rval) => match rval.kind() {
                 ObjKind::INVALID => format!("[Invalid]"),
@@ -207,7 +207,7 @@ impl Value {
                 }
                 ObjKind::STRING => format!(r#""{:?}""#, *rval.string()),
                 ObjKind::BIGNUM => format!("{}", *rval.bignum()),
-                ObjKind::FLOAT => Self::float_format(rval.float()),
+                ObjKind::FLOAT => float_to_s(rval.float()),
                 ObjKind::RANGE => {
                     let RangeInfo {
                         start,
@@ -306,15 +306,6 @@ impl Value {
         }
     }
 
-    fn float_format(f: f64) -> String {
-        let fabs = f.abs();
-        if fabs < 0.0001 || fabs >= 1000000000000000.0 {
-            format!("{:.1e}", f)
-        } else {
-            format!("{}", f)
-        }
-    }
-
     #[inline(always)]
     pub(crate) fn id(&self) -> u64 {
         self.get()
@@ -397,13 +388,7 @@ impl Value {
             RV::True => Cow::from("true"),
             RV::False => Cow::from("false"),
             RV::Integer(i) => Cow::from(i.to_string()),
-            RV::Float(f) => {
-                if f.fract() == 0.0 {
-                    Cow::from(format!("{:.1}", f))
-                } else {
-                    Cow::from(f.to_string())
-                }
-            }
+            RV::Float(f) => Cow::from(float_to_s(f)),
             RV::Symbol(i) => Cow::from(format!("{:?}", i)),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => panic!("Invalid rvalue. (maybe GC problem) {:?}", *oref),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index a73d0f5..73afada 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -769,13 +769,7 @@ impl VM {
             RV::True => "true".to_string(),
             RV::False => "false".to_string(),
             RV::Integer(i) => i.to_string(),
-            RV::Float(f) => {
-                if f.fract() == 0.0 {
-                    format!("{:.1}", f)
-                } else {
-                    f.to_string()
-                }
-            }
+            RV::Float(f) => float_to_s(f),
             RV::Symbol(sym) => format!(":{:?}", sym),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => "[Invalid]".to_string(),
-- 
2.43.0


From e69a91d8df03ed7b305ba8b035b50d387411b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 020/127] fix: floats beyond the packed range are not equal to
 other objects, instead of raising

---
 ruruby/src/vm/executor/ops.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index bdd8e04..73eb731 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -444,6 +444,8 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
+            (ObjKind::FLOAT, ObjKind::COMPLEX) => return Ok(None),
+            (ObjKind::FLOAT, _) => false,
             (_, _) => return Ok(None),
         };
         Ok(Some(b))
-- 
2.43.0


From 1f4d3d1a9d72bced813d7a298e010c478093c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 021/127] fix: string and regexp methods work on characters,
 ranges, empty and optional matches

---
 ruruby/src/builtin/regexp.rs | 211 +++++----
 ruruby/src/builtin/string.rs | 799 +++++++++++++++++++----------------
 ruruby/src/vm/executor.rs    |  15 +
 3 files changed, 583 insertions(+), 442 deletions(-)

diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index ed2156c..5bf4347 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -82,7 +82,10 @@ impl RegexpInfo {
             block: &Block,
         ) -> Result<(String, bool), RubyError> {
             let (start, end, matched_str) = match re.captures_from_pos(given, 0) {
-                Ok(None) => return Ok((given.to_string(), false)),
+                Ok(None) => {
+                    vm.clear_captures();
+                    return Ok((given.to_string(), false));
+                }
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
                     vm.get_captures(&captures, given);
@@ -139,33 +142,33 @@ impl RegexpInfo {
             given: &str,
             block: &Block,
         ) -> Result<(String, bool), RubyError> {
-            let mut range = vec![];
+            let mut res = String::new();
+            let mut cursor = 0;
             let mut i = 0;
+            let mut last_captures = None;
             let f = vm.eval_block_map1(block);
-            loop {
-                let (start, end, matched_str) = match re.captures_from_pos(given, i) {
+            while i <= given.len() {
+                match re.captures_from_pos(given, i) {
                     Ok(None) => break,
                     Ok(Some(captures)) => {
                         let m = captures.get(0).unwrap();
-                        i = m.end() + if m.start() == m.end() { 1 } else { 0 };
+                        i = RegexpInfo::next_search_pos(given, &m);
                         vm.get_captures(&captures, given);
-                        (m.start(), m.end(), m.as_str())
+                        let result = f(vm, Value::string(m.as_str()))?;
+                        res += &given[cursor..m.start()];
+                        res += &result.val_to_s(vm)?;
+                        cursor = m.end();
+                        last_captures = Some(captures);
                     }
                     Err(err) => {
                         return Err(RubyError::internal(format!("Capture failed. {:?}", err)))
                     }
                 };
-                let matched = Value::string(matched_str);
-                let result = f(vm, matched)?;
-                let replace = result.val_to_s(vm)?.into_owned();
-                range.push((start, end, replace));
             }
-
-            let mut res = given.to_string();
-            for (start, end, replace) in range.iter().rev() {
-                res.replace_range(start..end, replace);
-            }
-            Ok((res, range.len() != 0))
+            res += &given[cursor..];
+            let changed = last_captures.is_some();
+            vm.set_captures(last_captures, given);
+            Ok((res, changed))
         }
 
         if let Some(s) = re_val.as_string() {
@@ -184,17 +187,28 @@ impl RegexpInfo {
         given: &'a str,
         pos: usize,
     ) -> Result<Value, RubyError> {
-        let pos = match given.char_indices().nth(pos) {
-            Some((pos, _)) => pos,
-            None => return Ok(Value::nil()),
+        let pos = match Self::byte_pos(given, pos) {
+            Some(pos) => pos,
+            None => {
+                vm.clear_captures();
+                return Ok(Value::nil());
+            }
         };
         match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(Value::nil())
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 let mut v = vec![];
                 for i in 0..captures.len() {
-                    v.push(Value::string(captures.get(i).unwrap().as_str()));
+                    v.push(
+                        captures
+                            .get(i)
+                            .map(|m| Value::string(m.as_str()))
+                            .unwrap_or_default(),
+                    );
                 }
                 Ok(Value::array_from(v))
             }
@@ -209,12 +223,18 @@ impl RegexpInfo {
         block: &Block,
         pos: usize,
     ) -> Result<Value, RubyError> {
-        let pos = match given.char_indices().nth(pos) {
-            Some((pos, _)) => pos,
-            None => return Ok(Value::nil()),
+        let pos = match Self::byte_pos(given, pos) {
+            Some(pos) => pos,
+            None => {
+                vm.clear_captures();
+                return Ok(Value::nil());
+            }
         };
         match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(Value::nil())
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 let matched = Value::string(captures.get(0).unwrap().as_str());
@@ -232,7 +252,10 @@ impl RegexpInfo {
         given: &'a str,
     ) -> Result<Option<Match<'a>>, RubyError> {
         match re.captures(given) {
-            Ok(None) => Ok(None),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(None)
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 Ok(captures.get(0))
@@ -245,12 +268,12 @@ impl RegexpInfo {
         let mut ary = vec![];
         let mut idx = 0;
         let mut last_captures = None;
-        loop {
+        while idx <= given.len() {
             match re.captures_from_pos(given, idx) {
                 Ok(None) => break,
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
-                    idx = m.end();
+                    idx = Self::next_search_pos(given, &m);
                     match captures.len() {
                         1 => {
                             let val = Value::string(&given[m.start()..m.end()]);
@@ -275,12 +298,33 @@ impl RegexpInfo {
                 Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
             };
         }
-        match last_captures {
-            Some(c) => vm.get_captures(&c, given),
-            None => {}
-        }
+        vm.set_captures(last_captures, given);
         Ok(ary)
     }
+
+    /// Get the byte position of the `nth` character of `s`. (`nth` may be the number of characters.)
+    fn byte_pos(s: &str, nth: usize) -> Option<usize> {
+        s.char_indices()
+            .map(|(pos, _)| pos)
+            .chain(std::iter::once(s.len()))
+            .nth(nth)
+    }
+
+    /// Get the position of the character next to the one at `pos`.
+    pub(crate) fn next_pos(s: &str, pos: usize) -> usize {
+        pos + s[pos..].chars().next().map_or(1, |c| c.len_utf8())
+    }
+
+    /// Get the position where the next search after `m` starts.
+    ///
+    /// The length of the matched string can be 0; it must not be found again.
+    fn next_search_pos(s: &str, m: &Match) -> usize {
+        if m.start() == m.end() {
+            Self::next_pos(s, m.end())
+        } else {
+            m.end()
+        }
+    }
 }
 
 impl RegexpInfo {
@@ -294,41 +338,69 @@ impl RegexpInfo {
         given: &str,
         replace: &str,
     ) -> Result<(String, bool), RubyError> {
-        let mut range = vec![];
+        let mut res = String::new();
+        let mut cursor = 0;
         let mut i = 0;
         let mut last_captures = None;
-        loop {
-            if i >= given.len() {
-                break;
-            }
+        while i <= given.len() {
             match self.captures_from_pos(given, i) {
                 Ok(None) => break,
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
-                    // the length of matched string can be 0.
-                    // this is neccesary to avoid infinite loop.
-                    i = if m.end() == m.start() {
-                        m.end() + 1
-                    } else {
-                        m.end()
-                    };
-                    range.push((m.start(), m.end()));
+                    i = Self::next_search_pos(given, &m);
+                    res += &given[cursor..m.start()];
+                    res += &Self::expand(&captures, replace);
+                    cursor = m.end();
                     last_captures = Some(captures);
                 }
                 Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
             };
         }
-        let mut res = given.to_string();
-        for (start, end) in range.iter().rev() {
-            res.replace_range(start..end, replace);
-        }
+        res += &given[cursor..];
+        let changed = last_captures.is_some();
+        vm.set_captures(last_captures, given);
+        Ok((res, changed))
+    }
 
-        match last_captures {
-            Some(c) => vm.get_captures(&c, given),
-            None => {}
+    /// Expand back references in `replace`.
+    fn expand(captures: &Captures, replace: &str) -> String {
+        let mut rep = "".to_string();
+        let mut escape = false;
+        for ch in replace.chars() {
+            if escape {
+                match ch {
+                    '0'..='9' => {
+                        let i = ch as usize - '0' as usize;
+                        match captures.get(i) {
+                            Some(m) => rep += m.as_str(),
+                            None => {}
+                        };
+                    }
+                    '\\' => rep.push(ch),
+                    _ => {
+                        rep.push('\\');
+                        rep.push(ch);
+                    }
+                };
+                escape = false;
+            } else if ch != '\\' {
+                rep.push(ch);
+            } else {
+                escape = true;
+            }
         }
+        if escape {
+            rep.push('\\');
+        }
+        rep
+    }
 
-        Ok((res, range.len() != 0))
+    /// Get the position (in characters) of the leftmost match.
+    pub(crate) fn match_pos(&self, vm: &mut VM, given: &str) -> VMResult {
+        Ok(match RegexpInfo::find_one(vm, self, given)? {
+            Some(m) => Value::integer(given[..m.start()].chars().count() as i64),
+            None => Value::nil(),
+        })
     }
 
     /// Replaces the leftmost-first match for `self` in `given` string with `replace`.
@@ -342,32 +414,15 @@ impl RegexpInfo {
         replace: &str,
     ) -> Result<(String, Option<Captures>), RubyError> {
         match self.captures(given) {
-            Ok(None) => Ok((given.to_string(), None)),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok((given.to_string(), None))
+            }
             Ok(Some(captures)) => {
                 let mut res = given.to_string();
                 let m = captures.get(0).unwrap();
                 vm.get_captures(&captures, given);
-                let mut rep = "".to_string();
-                let mut escape = false;
-                for ch in replace.chars() {
-                    if escape {
-                        match ch {
-                            '0'..='9' => {
-                                let i = ch as usize - '0' as usize;
-                                match captures.get(i) {
-                                    Some(m) => rep += m.as_str(),
-                                    None => {}
-                                };
-                            }
-                            _ => rep.push(ch),
-                        };
-                        escape = false;
-                    } else if ch != '\\' {
-                        rep.push(ch);
-                    } else {
-                        escape = true;
-                    }
-                }
+                let rep = Self::expand(&captures, replace);
                 res.replace_range(m.start()..m.end(), &rep);
                 Ok((res, Some(captures)))
             }
@@ -441,11 +496,7 @@ fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut args0 = vm[0];
     let regex = self_val.as_regexp().unwrap();
     let given = args0.expect_string("1st Arg")?;
-    let res = match RegexpInfo::find_one(vm, &regex, given).unwrap() {
-        Some(mat) => Value::integer(mat.start() as i64),
-        None => Value::nil(),
-    };
-    return Ok(res);
+    regex.match_pos(vm, given)
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 2c97b53..54b64ee 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1,6 +1,7 @@
 use crate::vm::*;
 use crate::*;
-use num::BigInt;
+use num::bigint::ToBigInt;
+use num::{BigInt, ToPrimitive};
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
@@ -126,126 +127,137 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
-fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    fn conv_index(i: i64, len: usize) -> Option<usize> {
-        if i >= 0 {
-            if i < len as i64 {
-                Some(i as usize)
-            } else {
-                None
-            }
-        } else {
-            match len as i64 + i {
-                n if n < 0 => None,
-                n => Some(n as usize),
-            }
-        }
+/// Resolve `start` and the number of characters `count` in the string of `len` characters.
+fn char_range(start: i64, count: i64, len: usize) -> Option<(usize, usize)> {
+    let start = if start < 0 {
+        start.checked_add(len as i64)?
+    } else {
+        start
+    };
+    if start < 0 || start > len as i64 || count < 0 {
+        return None;
     }
+    let start = start as usize;
+    Some((start, std::cmp::min(count as usize, len - start)))
+}
+
+/// Resolve Range object in the string of `len` characters.
+fn range_to_char_range(
+    range: &RangeInfo,
+    len: usize,
+) -> Result<Option<(usize, usize)>, RubyError> {
+    let start = range.start.coerce_to_fixnum("Start of the range")?;
+    let end = range.end.coerce_to_fixnum("End of the range")?;
+    let start = match char_range(start, 0, len) {
+        Some((start, _)) => start,
+        None => return Ok(None),
+    };
+    let end = if end < 0 { end + len as i64 } else { end };
+    let end = end.saturating_add(if range.exclude { 0 } else { 1 });
+    let count = std::cmp::max(0, end.saturating_sub(start as i64));
+    Ok(char_range(start as i64, count, len))
+}
+
+/// Get the byte position of the `nth` character.
+fn byte_pos(s: &str, nth: usize) -> usize {
+    s.char_indices().nth(nth).map_or(s.len(), |(pos, _)| pos)
+}
+
+/// Get the byte range of the `count` characters from the `start`-th one.
+fn byte_range(s: &str, (start, count): (usize, usize)) -> std::ops::Range<usize> {
+    let start = byte_pos(s, start);
+    let end = start + byte_pos(&s[start..], count);
+    start..end
+}
+
+fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let lhs = self_val.expect_string("Receiver")?;
-    match vm[0].unpack() {
-        RV::Integer(i) => {
-            let index = match conv_index(i, lhs.chars().count()) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            let len = if args.len() == 2 {
-                match vm[1].coerce_to_fixnum("1st arg")? {
-                    0 => return Ok(Value::string("")),
-                    i if i < 0 => return Ok(Value::nil()),
-                    i => i as usize,
-                }
-            } else {
-                1usize
-            };
-            let ch: String = lhs.chars().skip(index).take(len).collect();
-            if ch.len() != 0 {
-                Ok(Value::string(ch))
-            } else {
+    let len = lhs.chars().count();
+    let arg0 = vm[0];
+    let range = if let RV::Integer(i) = arg0.unpack() {
+        if args.len() == 2 {
+            char_range(i, vm[1].coerce_to_fixnum("2nd arg")?, len)
+        } else {
+            char_range(i, 1, len).filter(|(_, count)| *count == 1)
+        }
+    } else if let Some(re) = arg0.as_regexp() {
+        let nth = if args.len() == 1 {
+            0
+        } else {
+            vm[1].coerce_to_fixnum("2nd arg")?
+        };
+        return match re.captures(lhs) {
+            Ok(None) => {
+                vm.clear_captures();
                 Ok(Value::nil())
             }
-        }
-        RV::Object(oref) => match oref.kind() {
-            ObjKind::RANGE => {
-                let info = &*oref.range();
-                let len = lhs.chars().count();
-                // TODO: exclude?
-                let (start, end) = match (info.start.as_fixnum(), info.end.as_fixnum()) {
-                    (Some(start), Some(end)) => {
-                        match (conv_index(start, len), conv_index(end, len)) {
-                            (Some(start), Some(end)) if start > end => {
-                                return Ok(Value::string(""))
-                            }
-                            (Some(start), Some(end)) => (start, end),
-                            _ => return Ok(Value::nil()),
-                        }
-                    }
-                    _ => return Err(RubyError::argument("Index must be Integer.")),
+            Ok(Some(captures)) => {
+                vm.get_captures(&captures, lhs);
+                let nth = if nth < 0 {
+                    captures.len() as i64 + nth
+                } else {
+                    nth
                 };
-                let s: String = lhs.chars().skip(start).take(end - start + 1).collect();
-                Ok(Value::string(s))
-            }
-            ObjKind::REGEXP => {
-                let info = &*oref.regexp();
-                let nth = if args.len() == 1 {
-                    0
+                let m = if nth < 0 {
+                    None
                 } else {
-                    vm[1].coerce_to_fixnum("2nd arg")?
+                    captures.get(nth as usize)
                 };
-                match info.captures(lhs) {
-                    Ok(None) => return Ok(Value::nil()),
-                    Ok(Some(captures)) => {
-                        vm.get_captures(&captures, lhs);
-                        let len = captures.len() as i64;
-                        if nth == 0 {
-                            Ok(Value::string(captures.get(0).unwrap().as_str()))
-                        } else if nth > 0 {
-                            match captures.get(nth as usize) {
-                                Some(m) => Ok(Value::string(m.as_str())),
-                                None => Ok(Value::nil()),
-                            }
-                        } else {
-                            match len + nth {
-                                i if i > 0 => {
-                                    Ok(Value::string(captures.get(i as usize).unwrap().as_str()))
-                                }
-                                _ => Ok(Value::nil()),
-                            }
-                        }
-                    }
-                    Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
-                }
+                Ok(m.map(|m| Value::string(m.as_str())).unwrap_or_default())
             }
-            _ => Err(RubyError::argument("Bad type for index.")),
-        },
-        _ => Err(RubyError::argument("Bad type for index.")),
-    }
+            Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+        };
+    } else {
+        args.check_args_num(1)?;
+        if let Some(pat) = arg0.as_string() {
+            return Ok(if lhs.contains(pat) {
+                Value::string(pat)
+            } else {
+                Value::nil()
+            });
+        }
+        match arg0.as_range() {
+            Some(range) => range_to_char_range(range, len)?,
+            None => return Err(RubyError::argument("Bad type for index.")),
+        }
+    };
+    Ok(match range {
+        Some(range) => Value::string(&lhs[byte_range(lhs, range)]),
+        None => Value::nil(),
+    })
 }
 
 fn index_assign(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(2, 3)?;
-    let string = self_val.as_mut_rstring().unwrap();
-    let str_len = string.chars().count();
-    let start_pos = vm[0].coerce_to_fixnum("1st arg")? as usize;
-    let (len, mut subst_val) = match args.len() {
-        2 => (0, vm[1]),
-        3 => (vm[1].coerce_to_fixnum("2nd arg")? as usize - 1, vm[2]),
-        _ => unreachable!(),
+    let mut subst_val = vm[args.len() - 1];
+    let subst = subst_val.expect_string("Value")?.to_owned();
+    let string = self_val.expect_string("Receiver")?;
+    let len = string.chars().count();
+    let index = vm[0].coerce_to_fixnum("1st arg")?;
+    let range = if args.len() == 3 {
+        let count = vm[1].coerce_to_fixnum("2nd arg")?;
+        if count < 0 {
+            return Err(RubyError::index(format!("Negative length {}.", count)));
+        }
+        char_range(index, count, len)
+    } else {
+        // A non-negative index may point just after the last character.
+        char_range(index, 1, len)
     };
-    if start_pos >= str_len {
-        return Err(RubyError::index(format!(
-            "Index {:?} out of string.",
-            vm[0]
-        )));
-    }
-    let (start, end) = (
-        string.char_indices().nth(start_pos).unwrap().0,
-        match string.char_indices().nth(start_pos + len + 1) {
-            Some((p, _)) => p,
-            None => string.len(),
-        },
-    );
-    string.replace_range(start..end, subst_val.expect_string("Value")?);
+    let range = match range {
+        Some(range) => byte_range(string, range),
+        None => {
+            return Err(RubyError::index(format!(
+                "Index {:?} out of string.",
+                vm[0]
+            )))
+        }
+    };
+    self_val
+        .as_mut_rstring()
+        .unwrap()
+        .replace_range(range, &subst);
     Ok(Value::nil())
 }
 
@@ -265,8 +277,11 @@ fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(rhs) => lhs.append(rhs),
         None => match vm[0].as_fixnum() {
             Some(i) => {
-                let rhs = RString::Bytes(vec![i as i8 as u8]);
-                lhs.append(&rhs);
+                let c = i.to_u32().and_then(char::from_u32);
+                match c {
+                    Some(c) => lhs.append(&RString::from(c.to_string())),
+                    None => return Err(RubyError::range(format!("{} out of char range", i))),
+                }
             }
             None => return Err(RubyError::argument("Arg must be String or Integer.")),
         },
@@ -291,6 +306,9 @@ macro_rules! next_char {
     };
 }
 
+/// The limit for the width and the precision of a placeholder.
+const MAX_FORMAT_WIDTH: usize = 1 << 24;
+
 fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let arguments = match vm[0].as_array() {
@@ -327,83 +345,115 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             }
         };
         let mut zero_flag = false;
-        // Zero-fill
-        if ch == '0' {
-            zero_flag = true;
+        let mut left_flag = false;
+        let mut plus_flag = false;
+        let mut space_flag = false;
+        loop {
+            match ch {
+                '0' => zero_flag = true,
+                '-' => left_flag = true,
+                '+' => plus_flag = true,
+                ' ' => space_flag = true,
+                _ => break,
+            }
             ch = expect_char(vm, &mut chars)?;
         }
         // Width
         let mut width = 0usize;
         while '0' <= ch && ch <= '9' {
-            width = width * 10 + ch as usize - '0' as usize;
+            width = width
+                .saturating_mul(10)
+                .saturating_add(ch as usize - '0' as usize);
             ch = expect_char(vm, &mut chars)?;
         }
         // Precision
-        let mut precision = 0usize;
+        let mut precision = None;
         if ch == '.' {
             ch = expect_char(vm, &mut chars)?;
+            let mut p = 0usize;
             while '0' <= ch && ch <= '9' {
-                precision = precision * 10 + ch as usize - '0' as usize;
+                p = p
+                    .saturating_mul(10)
+                    .saturating_add(ch as usize - '0' as usize);
                 ch = expect_char(vm, &mut chars)?;
             }
+            precision = Some(p);
         };
+        if width > MAX_FORMAT_WIDTH || precision.unwrap_or(0) > MAX_FORMAT_WIDTH {
+            return Err(RubyError::argument("Width or precision too big."));
+        }
         if arguments.len() <= arg_no {
             return Err(RubyError::argument("Too few arguments"));
         };
         // Specifier
-        let mut val = arguments[arg_no];
+        let val = arguments[arg_no];
         arg_no += 1;
-        let format = match ch {
-            'd' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$.p$}", val, w = width, p = precision)
-                } else {
-                    format!("{:w$.p$}", val, w = width, p = precision)
-                }
-            }
-            'b' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$b}", val, w = width)
-                } else {
-                    format!("{:w$b}", val, w = width)
-                }
-            }
-            'x' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$x}", val, w = width)
-                } else {
-                    format!("{:w$x}", val, w = width)
-                }
-            }
-            'X' => {
-                let val = val.coerce_to_fixnum("Value for the placeholder")?;
-                if zero_flag {
-                    format!("{:0w$X}", val, w = width)
-                } else {
-                    format!("{:w$X}", val, w = width)
-                }
+        // `body` excludes the sign.
+        let (is_negative, body) = match ch {
+            'd' | 'b' | 'x' | 'X' => {
+                let i = match val.as_float() {
+                    Some(f) => f.floor().to_bigint().ok_or_else(|| {
+                        RubyError::range("Invalid value for placeholder of Integer.")
+                    })?,
+                    None => match val.unpack() {
+                        RV::Integer(i) => BigInt::from(i),
+                        _ => match val.as_bignum() {
+                            Some(i) => i.clone(),
+                            None => BigInt::from(val.coerce_to_fixnum("Value for placeholder")?),
+                        },
+                    },
+                };
+                let body = i.magnitude().to_str_radix(match ch {
+                    'd' => 10,
+                    'b' => 2,
+                    _ => 16,
+                });
+                let body = match precision {
+                    Some(p) => format!("{:0>w$}", body, w = p),
+                    None => body,
+                };
+                let is_negative = i.sign() == num::bigint::Sign::Minus;
+                (
+                    Some(is_negative),
+                    if ch == 'X' { body.to_uppercase() } else { body },
+                )
             }
             'f' => {
                 let f = match val.as_float() {
                     Some(f) => f,
-                    None => val.coerce_to_fixnum("Value for the placeholder")? as f64,
+                    None => match val.as_bignum() {
+                        Some(i) => i.to_f64().unwrap(),
+                        None => val.coerce_to_fixnum("Value for the placeholder")? as f64,
+                    },
                 };
-                if zero_flag {
-                    format!("{:0w$.p$}", f, w = width, p = precision)
+                let body = if f.is_finite() {
+                    format!("{:.p$}", f.abs(), p = precision.unwrap_or(6))
                 } else {
-                    format!("{:w$.p$}", f, w = width, p = precision)
-                }
+                    zero_flag = false;
+                    if f.is_nan() { "NaN" } else { "Inf" }.to_string()
+                };
+                (Some(f.is_sign_negative() && !f.is_nan()), body)
             }
             'c' => {
                 let val = val.coerce_to_fixnum("Value for the placeholder")?;
-                let ch = char::from_u32(val as u32)
+                let ch = val
+                    .to_u32()
+                    .and_then(char::from_u32)
                     .ok_or_else(|| RubyError::argument("Invalid value for placeholder."))?;
-                format!("{}", ch)
+                (None, ch.to_string())
+            }
+            's' | 'p' => {
+                let s = if ch == 's' {
+                    val.val_to_s(vm)?.into_owned()
+                } else {
+                    vm.val_inspect(val)?
+                };
+                let s = match precision {
+                    Some(p) => s.chars().take(p).collect(),
+                    None => s,
+                };
+                (None, s)
             }
-            's' => val.expect_string("Value for placeholder")?.to_string(),
             _ => {
                 return Err(RubyError::argument(format!(
                     "Invalid format character. {}",
@@ -411,6 +461,20 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 )))
             }
         };
+        let sign = match is_negative {
+            Some(true) => "-",
+            Some(false) if plus_flag => "+",
+            Some(false) if space_flag => " ",
+            _ => "",
+        };
+        let fill = width.saturating_sub(sign.len() + body.chars().count());
+        let format = if left_flag {
+            format!("{}{}{}", sign, body, " ".repeat(fill))
+        } else if zero_flag && is_negative.is_some() {
+            format!("{}{}{}", sign, "0".repeat(fill), body)
+        } else {
+            format!("{}{}{}", " ".repeat(fill), sign, body)
+        };
         format_str.append(&mut format.chars().collect());
         next_char!(ch, chars);
     }
@@ -448,110 +512,111 @@ fn to_sym(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 ///
 /// split(sep = $;, limit = 0) {|s| ... } -> self
 ///
-/// TODO: support nil and ' ' for sep.
-///
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/split.html
 fn split(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(1, 2)?;
-    let mut string = self_val.expect_string("Receiver")?;
-    let arg0 = vm[0];
-    if let Some(sep) = arg0.as_string() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        if sep == " " {
-            string = string.trim_start_matches(|c: char| c.is_ascii_whitespace());
+    args.check_args_range(0, 2)?;
+    let string = self_val.expect_string("Receiver")?;
+    let lim = if args.len() > 1 {
+        vm[1].coerce_to_fixnum("Second arg must be Integer.")?
+    } else {
+        0
+    };
+    let sep = if args.len() == 0 {
+        Value::nil()
+    } else {
+        vm[0]
+    };
+    let mut res: Vec<&str> = vec![];
+    // true if no more than one field should be added.
+    let is_last = |res: &Vec<&str>| lim > 0 && res.len() as i64 == lim - 1;
+    if string.is_empty() {
+        // there is no field.
+    } else if lim == 1 {
+        res.push(string);
+    } else if sep.is_nil() || sep.as_string() == Some(" ") {
+        let is_space = |c: char| c.is_ascii_whitespace() || c == '\x0b' || c == '\0';
+        let mut rest = string.trim_start_matches(is_space);
+        loop {
+            match rest.find(is_space) {
+                Some(pos) if !is_last(&res) => {
+                    res.push(&rest[..pos]);
+                    rest = rest[pos..].trim_start_matches(is_space);
+                }
+                _ => {
+                    res.push(rest);
+                    break;
+                }
+            }
         }
-        let v: Vec<Value> = if lim < 0 {
-            string.split(sep).map(|s| Value::string(s)).collect()
-        } else if lim == 0 {
-            /*if sep == " " {
-                string = string.trim_end_matches(|c: char| c.is_ascii_whitespace());
-            }*/
-            let mut vec: Vec<&str> = string.split(sep).collect();
-            while let Some(s) = vec.last() {
-                if s.is_empty() {
-                    vec.pop().unwrap();
-                } else {
+    } else if let Some(sep) = sep.as_string() {
+        if sep.is_empty() {
+            let mut rest = string;
+            while let Some(c) = rest.chars().next() {
+                if is_last(&res) {
                     break;
                 }
+                let (ch, tail) = rest.split_at(c.len_utf8());
+                res.push(ch);
+                rest = tail;
             }
-            vec.into_iter().map(|x| Value::string(x)).collect()
+            res.push(rest);
+        } else if lim > 0 {
+            res.extend(string.splitn(lim as usize, sep));
         } else {
-            string
-                .splitn(lim as usize, sep)
-                .map(|x| Value::string(x))
-                .collect()
-        };
-        match &args.block {
-            Some(b) => {
-                let tmp = Value::array_from(v.clone());
-                vm.temp_push(tmp);
-                let iter = v.into_iter();
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
-            }
-            None => Ok(Value::array_from(v)),
+            res.extend(string.split(sep));
         }
-    } else if let Some(re) = arg0.as_regexp() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        let all_cap = re.captures_iter(string);
+    } else if let Some(re) = sep.as_regexp() {
         let mut cursor = 0usize;
-        let mut res = vec![];
-        let mut count = 0;
-        'l: for c in all_cap {
-            let c = c.unwrap();
-            let mut iter = c.iter();
-            let m = iter.next().unwrap().unwrap();
-            count += 1;
-            if count == lim {
-                break 'l;
+        let mut pos = 0usize;
+        let mut count = 1;
+        // true if an empty match was found at the previous character.
+        let mut skipped = false;
+        while pos <= string.len() {
+            let c = match re.captures_from_pos(string, pos) {
+                Ok(Some(c)) => c,
+                Ok(None) => break,
+                Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+            };
+            let m = c.get(0).unwrap();
+            if m.start() == m.end() && m.start() == pos {
+                // An empty match separates two characters.
+                if !skipped {
+                    pos = RegexpInfo::next_pos(string, pos);
+                    skipped = true;
+                    continue;
+                }
+                res.push(&string[cursor..pos]);
+                cursor = pos;
             } else {
                 res.push(&string[cursor..m.start()]);
+                cursor = m.end();
+                pos = m.end();
             }
-            while let Some(m) = iter.next() {
-                count += 1;
-                if count == lim {
-                    cursor = m.unwrap().start();
-                    break 'l;
-                } else {
-                    res.push(m.unwrap().as_str())
-                }
+            skipped = false;
+            res.extend((1..c.len()).filter_map(|i| c.get(i).map(|m| m.as_str())));
+            count += 1;
+            if count == lim {
+                break;
             }
-            cursor = m.end();
-        }
-        if cursor <= string.len() {
-            res.push(&string[cursor..]);
         }
-        // if lim == 0, remove all empty strings from a tail.
-        if lim == 0 {
-            while let Some(s) = res.last() {
-                if s.is_empty() {
-                    res.pop().unwrap();
-                } else {
-                    break;
-                }
-            }
+        res.push(&string[cursor..]);
+    } else {
+        return Err(RubyError::argument("Ist arg must be an String or RegExp."));
+    }
+    // if lim == 0, remove all empty strings from a tail.
+    if lim == 0 {
+        while res.last().map_or(false, |s| s.is_empty()) {
+            res.pop();
         }
-        let iter = res.into_iter().map(|s| Value::string(s));
-        match &args.block {
-            Some(b) => {
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
-            }
-            None => {
-                let v = iter.collect();
-                Ok(Value::array_from(v))
-            }
+    }
+    let ary: Vec<Value> = res.into_iter().map(|s| Value::string(s)).collect();
+    match &args.block {
+        Some(b) => {
+            vm.temp_extend_from_slice(&ary);
+            vm.eval_block_map1_iter(b, ary.into_iter())?;
+            Ok(self_val)
         }
-    } else {
-        Err(RubyError::argument("Ist arg must be an String or RegExp."))
+        None => Ok(Value::array_from(ary)),
     }
 }
 
@@ -573,7 +638,9 @@ fn sub(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         RegexpInfo::replace_one(vm, vm[0], given, replace)?
     } else {
         let block = args.expect_block()?;
-        let (res, _) = RegexpInfo::replace_one_block(vm, vm[0], given, &block)?;
+        // The block may change the receiver.
+        let given = given.to_owned();
+        let (res, _) = RegexpInfo::replace_one_block(vm, vm[0], &given, &block)?;
         res
     };
     Ok(Value::string(res))
@@ -602,8 +669,9 @@ fn gsub_main(vm: &mut VM, mut self_val: Value, args: &Args2) -> Result<(String,
         }
         Some(block) => {
             args.check_args_num(1)?;
-            let given = self_val.expect_string("Receiver")?;
-            RegexpInfo::replace_all_block(vm, vm[0], given, block)
+            // The block may change the receiver.
+            let given = self_val.expect_string("Receiver")?.to_owned();
+            RegexpInfo::replace_all_block(vm, vm[0], &given, block)
         }
     }
 }
@@ -639,98 +707,39 @@ fn scan(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn slice_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    fn calc_idx(target: &str, i: i64) -> Option<usize> {
-        if i >= 0 {
-            Some(i as usize)
-        } else {
-            match target.chars().count() as i64 + i {
-                idx if idx < 0 => None,
-                idx => Some(idx as usize),
-            }
-        }
-    }
-    let mut self_val2 = self_val;
+fn slice_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
-    let target = self_val2.as_mut_rstring().unwrap();
+    let target = self_val.expect_string("Receiver")?;
+    let len = target.chars().count();
     let arg0 = vm[0];
-    match arg0.unpack() {
-        RV::Integer(i) => {
-            if args.len() == 1 {
-                let idx = match calc_idx(target.as_string()?, i) {
-                    Some(i) => i,
-                    None => return Ok(Value::nil()),
-                };
-                let (pos, ch) = match target.char_indices().nth(idx) {
-                    Some((pos, ch)) => (pos, ch),
-                    None => return Ok(Value::nil()),
-                };
-                target.remove(pos);
-                return Ok(Value::string(ch.to_string()));
-            } else {
-                let len = vm[1].coerce_to_fixnum("2nd arg")?;
-                let len = if len < 0 {
-                    return Ok(Value::nil());
-                } else {
-                    len as usize
-                };
-                let start = match calc_idx(target.as_string()?, i) {
-                    Some(i) => i,
-                    None => return Ok(Value::nil()),
-                };
-                let mut iter = target.char_indices().skip(start);
-                let mut take = iter.by_ref().take(len).peekable();
-                let start_pos = match take.peek().cloned() {
-                    Some((pos, _)) => pos,
-                    None => return Ok(Value::nil()),
-                };
-                let take: String = take.map(|(_, ch)| ch).collect();
-
-                match iter.next() {
-                    Some((end_pos, _)) => {
-                        target.replace_range(start_pos..end_pos, "");
-                    }
-                    None => {
-                        target.replace_range(start_pos.., "");
-                    }
-                }
-
-                Ok(Value::string(take))
-            }
-        }
-        RV::Object(_rvalue) => {
-            let rval = arg0.rvalue_mut();
-            match rval.kind() {
-                ObjKind::STRING => {
-                    let rs = rval.string_mut();
-                    args.check_args_num(1)?;
-                    let given = rs.as_string()?;
-                    *target = RString::from(&target.replacen(given, "", usize::MAX));
-                    Ok(Value::string(given))
-                }
-                ObjKind::REGEXP => {
-                    let regexp = &*rval.regexp();
-                    let given = target.as_string()?;
-                    let (res, cap) = regexp.replace_once(vm, given, "")?;
-                    let ret = match cap {
-                        Some(cap) => Value::string(cap.get(0).unwrap().as_str()),
-                        None => Value::nil(),
-                    };
-                    *target = RString::from(&res);
-                    Ok(ret)
-                }
-                _ => {
-                    return Err(RubyError::argument(
-                        "First arg must be Integer, String, Regexp or Range.",
-                    ))
-                }
-            }
+    let range = if let RV::Integer(i) = arg0.unpack() {
+        if args.len() == 2 {
+            char_range(i, vm[1].coerce_to_fixnum("2nd arg")?, len)
+        } else {
+            char_range(i, 1, len).filter(|(_, count)| *count == 1)
         }
-        _ => {
-            return Err(RubyError::argument(
-                "First arg must be Integer, String, Regexp or Range.",
-            ))
+        .map(|range| byte_range(target, range))
+    } else if let Some(re) = arg0.as_regexp() {
+        args.check_args_num(1)?;
+        RegexpInfo::find_one(vm, &re, target)?.map(|m| m.start()..m.end())
+    } else if let Some(pat) = arg0.as_string() {
+        args.check_args_num(1)?;
+        target.find(pat).map(|pos| pos..pos + pat.len())
+    } else if let Some(range) = arg0.as_range() {
+        args.check_args_num(1)?;
+        range_to_char_range(range, len)?.map(|range| byte_range(target, range))
+    } else {
+        return Err(RubyError::argument(
+            "First arg must be Integer, String, Regexp or Range.",
+        ));
+    };
+    match range {
+        Some(range) => {
+            let res = Value::string(&target[range.clone()]);
+            self_val.as_mut_rstring().unwrap().replace_range(range, "");
+            Ok(res)
         }
+        None => Ok(Value::nil()),
     }
 }
 
@@ -738,11 +747,7 @@ fn rmatch(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let given = self_val.expect_string("Receiver")?;
     if let Some(re) = vm[0].as_regexp() {
-        let res = match RegexpInfo::find_one(vm, &re, given).unwrap() {
-            Some(mat) => Value::integer(mat.start() as i64),
-            None => Value::nil(),
-        };
-        return Ok(res);
+        return re.match_pos(vm, given);
     } else {
         return Err(RubyError::argument("1st arg must be RegExp."));
     };
@@ -767,14 +772,81 @@ fn str_match(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+/// A set of characters for String#tr and String#count.
+struct CharSet {
+    chars: Vec<char>,
+    negated: bool,
+}
+
+impl CharSet {
+    fn new(s: &str) -> Result<Self, RubyError> {
+        Ok(match s.strip_prefix('^') {
+            Some(s) if !s.is_empty() => CharSet {
+                chars: Self::expand(s)?,
+                negated: true,
+            },
+            _ => CharSet {
+                chars: Self::expand(s)?,
+                negated: false,
+            },
+        })
+    }
+
+    fn expand(s: &str) -> Result<Vec<char>, RubyError> {
+        let src: Vec<char> = s.chars().collect();
+        let mut chars = vec![];
+        let mut i = 0;
+        while i < src.len() {
+            if src[i] == '\\' && i + 1 < src.len() {
+                chars.push(src[i + 1]);
+                i += 2;
+            } else if i + 2 < src.len() && src[i + 1] == '-' {
+                if src[i] > src[i + 2] {
+                    return Err(RubyError::argument(format!(
+                        "Invalid range \"{}-{}\" in string transliteration.",
+                        src[i],
+                        src[i + 2]
+                    )));
+                }
+                chars.extend(src[i]..=src[i + 2]);
+                i += 3;
+            } else {
+                chars.push(src[i]);
+                i += 1;
+            }
+        }
+        Ok(chars)
+    }
+
+    fn contains(&self, c: char) -> bool {
+        self.chars.contains(&c) != self.negated
+    }
+}
+
 fn tr(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(2)?;
     let rec = self_val.expect_string("Receiver")?;
     let mut arg0 = vm[0];
     let mut arg1 = vm[1];
-    let from = arg0.expect_string("1st arg")?;
+    let from = CharSet::new(arg0.expect_string("1st arg")?)?;
     let to = arg1.expect_string("2nd arg")?;
-    let res = rec.replace(from, to);
+    let to = CharSet::expand(to)?;
+    let mut res = String::new();
+    for c in rec.chars() {
+        if !from.contains(c) {
+            res.push(c);
+            continue;
+        }
+        let pos = if from.negated {
+            usize::MAX
+        } else {
+            from.chars.iter().position(|x| *x == c).unwrap()
+        };
+        // Characters without a counterpart become the last one.
+        if let Some(c) = to.get(pos).or(to.last()) {
+            res.push(*c);
+        }
+    }
     Ok(Value::string(res))
 }
 
@@ -800,11 +872,11 @@ fn bytes(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 Some(rstr) => rstr,
                 None => return Err(RubyError::argument("Receiver must be String.")),
             };
+            // The block may change the receiver.
+            let bytes = rstr.as_bytes().to_vec();
             let f = vm.eval_block_map1(block);
-            for b in rstr.as_bytes() {
-                let byte = Value::integer(*b as i64);
-                //vm.eval_block1(block, byte)?;
-                f(vm, byte)?;
+            for b in bytes {
+                f(vm, Value::integer(b as i64))?;
             }
             Ok(self_val)
         }
@@ -818,11 +890,11 @@ fn each_byte(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(rstr) => rstr,
         None => return Err(RubyError::argument("Receiver must be String.")),
     };
+    // The block may change the receiver.
+    let bytes = rstr.as_bytes().to_vec();
     let f = vm.eval_block_map1(block);
-    for b in rstr.as_bytes() {
-        let byte = Value::integer(*b as i64);
-        //vm.eval_block1(block, byte)?;
-        f(vm, byte)?;
+    for b in bytes {
+        f(vm, Value::integer(b as i64))?;
     }
     Ok(self_val)
 }
@@ -840,12 +912,11 @@ fn chars(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn each_char(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let block = args.expect_block()?;
-    let chars = self_val.expect_string("Receiver")?;
+    // The block may change the receiver.
+    let string = self_val.expect_string("Receiver")?.to_owned();
     let f = vm.eval_block_map1(block);
-    for c in chars.chars() {
-        let char = Value::string(c.to_string());
-        //vm.eval_block1(block, char)?;
-        f(vm, char)?;
+    for c in string.chars() {
+        f(vm, Value::string(c.to_string()))?;
     }
     Ok(self_val)
 }
@@ -1197,14 +1268,18 @@ fn str_next(self_: &str) -> String {
 }
 
 fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let mut arg0 = vm[0];
-    let target = self_val.as_string().unwrap();
-    let mut c = 0;
-    let iter = arg0.expect_string("Args")?.chars();
-    for ch in iter {
-        c += target.rmatches(|x| ch == x).count();
+    args.check_args_min(1)?;
+    let mut sets = vec![];
+    for i in 0..args.len() {
+        let mut arg = vm[i];
+        sets.push(CharSet::new(arg.expect_string("Args")?)?);
     }
+    let mut receiver = self_val;
+    let c = receiver
+        .expect_string("Receiver")?
+        .chars()
+        .filter(|c| sets.iter().all(|set| set.contains(*c)))
+        .count();
     Ok(Value::integer(c as i64))
 }
 
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 73afada..519e060 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -576,6 +576,21 @@ impl VM {
         }
     }
 
+    /// Reset special variables, for nothing matched.
+    pub(crate) fn clear_captures(&mut self) {
+        self.sp_last_match = None;
+        self.sp_post_match = None;
+        self.sp_matches.clear();
+    }
+
+    /// Save captured strings to special variables, or reset them if nothing matched.
+    pub(crate) fn set_captures(&mut self, captures: Option<Captures>, given: &str) {
+        match captures {
+            Some(captures) => self.get_captures(&captures, given),
+            None => self.clear_captures(),
+        }
+    }
+
     pub(crate) fn get_special_matches(&self, nth: usize) -> Value {
         match self.sp_matches.get(nth - 1) {
             None => Value::nil(),
-- 
2.43.0


From 28f1215432af3e47d036914a16ab59d1cf3165e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 022/127] fix: strings that are not UTF-8, to_s that gives no
 string and symbol procs no longer panic

---
 ruruby/src/builtin/string.rs       | 25 ++++++++++++++++---------
 ruruby/src/codegen.rs              |  2 +-
 ruruby/src/value/string.rs         |  9 +++++++++
 ruruby/src/value/value.rs          | 12 ++++++++++--
 ruruby/src/vm/executor/opt_core.rs |  7 +++++--
 5 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 54b64ee..53eeb15 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -65,6 +65,13 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
+/// Get the text of the receiver.
+fn text(self_val: &Value) -> Result<&str, RubyError> {
+    self_val
+        .as_string()
+        .ok_or_else(|| RubyError::argument("Invalid as UTF-8 string."))
+}
+
 fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let self_val = self_val.into_module();
     args.check_args_range(0, 1)?;
@@ -317,7 +324,7 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let mut arg_no = 0;
     let mut format_str = vec![];
-    let mut chars = self_val.as_string().unwrap().chars();
+    let mut chars = text(&self_val)?.chars();
     let mut ch = match chars.next() {
         Some(ch) => ch,
         None => {
@@ -959,7 +966,7 @@ fn replace(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/strip.html
 fn strip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_ = self_val.as_string().unwrap();
+    let self_ = text(&self_val)?;
     let trim1: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b'];
     let trim2: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b', '\x00'];
     let res = self_.trim_end_matches(trim2).trim_start_matches(trim1);
@@ -970,7 +977,7 @@ fn strip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/lstrip.html
 fn lstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let string = self_val.as_string().unwrap();
+    let string = text(&self_val)?;
     let trim: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b'];
     let res = string.trim_start_matches(trim);
     Ok(Value::string(res))
@@ -980,7 +987,7 @@ fn lstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/rstrip.html
 fn rstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let string = self_val.as_string().unwrap();
+    let string = text(&self_val)?;
     let trim: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b', '\x00'];
     let res = string.trim_end_matches(trim);
     Ok(Value::string(res))
@@ -1122,7 +1129,7 @@ fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = text(&self_val)?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1149,7 +1156,7 @@ fn ljust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = text(&self_val)?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1170,7 +1177,7 @@ fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = text(&self_val)?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1184,7 +1191,7 @@ fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://github.com/ruby/ruby/blob/11b8bb99e6722253974c73d96ed653f97495e1c5/string.c#L4273
 fn next(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_val = self_val.as_string().unwrap();
+    let self_val = text(&self_val)?;
     let val = Value::string(str_next(self_val));
     Ok(val)
 }
@@ -1285,7 +1292,7 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn ord(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let ch = match self_val.as_string().unwrap().chars().next() {
+    let ch = match text(&self_val)?.chars().next() {
         Some(ch) => ch,
         None => return Err(RubyError::argument("Empty string.")),
     };
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index f6108ca..b9bd872 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -53,12 +53,12 @@ impl Codegen {
         let mut iseq_sourcemap = vec![];
         iseq.push(Inst::GET_LOCAL);
         iseq.push32(0);
-        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
         iseq.push(Inst::OPT_SEND);
         iseq.push32(method.into());
         iseq.push16(0);
         iseq.push_method(None);
         iseq.push32(globals.methods.add_inline_cache_entry());
+        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
         iseq.gen_return();
 
         let info = MethodInfo::RubyFunc {
diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 4560626..152cd26 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -175,6 +175,15 @@ impl RString {
         }
     }
 
+    /// Take reference of str, if the contents are valid as UTF-8.
+    pub(crate) fn as_utf8(&self) -> Option<&str> {
+        match self {
+            RString::Str(s) => Some(s),
+            RString::SmallStr(s) => Some(s.as_str()),
+            RString::Bytes(bytes) => std::str::from_utf8(bytes).ok(),
+        }
+    }
+
     pub(crate) fn as_str(&self) -> &str {
         match self {
             RString::Str(s) => s,
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 3aad83d..6bfc04b 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -395,7 +395,15 @@ impl Value {
                 ObjKind::STRING => oref.string().to_s(),
                 _ => {
                     let val = vm.eval_send0(IdentId::TO_S, *self)?;
-                    Cow::from(val.as_string().unwrap().to_owned())
+                    match val.as_rstring() {
+                        Some(s) => Cow::from(s.to_s().into_owned()),
+                        // to_s did not return a string.
+                        None => Cow::from(format!(
+                            "#<{}:0x{:016x}>",
+                            self.get_class_name(),
+                            self.id()
+                        )),
+                    }
                 }
             },
         };
@@ -632,7 +640,7 @@ impl Value {
     pub(crate) fn as_string(&self) -> Option<&str> {
         match self.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::STRING => Some(oref.string().as_str()),
+                ObjKind::STRING => oref.string().as_utf8(),
                 _ => None,
             },
             None => None,
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 7e35dee..dc0acc4 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -226,10 +226,13 @@ impl VM {
                         let num = self.pc.read32() as usize;
                         let res = (self.stack.sp - num)[0..num]
                             .iter()
-                            .fold(String::new(), |acc, x| acc + x.as_string().unwrap());
+                            .fold(RString::from(""), |mut acc, x| {
+                                acc.append(x.as_rstring().unwrap());
+                                acc
+                            });
                         self.stack.sp -= num;
 
-                        let val = Value::string(res);
+                        let val = Value::string_from_rstring(res);
                         self.stack_push(val);
                     }
                     Inst::SET_LOCAL => {
-- 
2.43.0


From 17d56d3e198616defb5951ee2d9dcbe9b878d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 023/127] fix: a string appended to itself, and locations of
 errors beside multibyte characters

---
 ruruby-common/src/source_info.rs | 32 +++++++++++++++++++++++---------
 ruruby/src/builtin/string.rs     |  3 +++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/ruruby-common/src/source_info.rs b/ruruby-common/src/source_info.rs
index 3719e5e..7457e15 100644
--- a/ruruby-common/src/source_info.rs
+++ b/ruruby-common/src/source_info.rs
@@ -63,7 +63,20 @@ impl SourceInfo {
     }
 
     fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
+        self.slice(pos, self.code.len()).chars().next()
+    }
+
+    /// Get the part `start..end` of the source code, extended to whole characters.
+    fn slice(&self, start: usize, end: usize) -> &str {
+        let mut end = std::cmp::min(end, self.code.len());
+        let mut start = std::cmp::min(start, end);
+        while !self.code.is_char_boundary(start) {
+            start -= 1;
+        }
+        while !self.code.is_char_boundary(end) {
+            end += 1;
+        }
+        &self.code[start..end]
     }
 
     pub fn get_lines(&self, loc: &Loc) -> Vec<Line> {
@@ -83,7 +96,8 @@ impl SourceInfo {
             .filter(|line| line.end >= loc.0 && line.top <= loc.1)
             .collect();
         if line_top < code_len && (code_len - 1) >= loc.0 && line_top <= loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len - 1));
+            let no = self.code.matches('\n').count() + 1;
+            lines.push(Line::new(no, line_top, code_len - 1));
         }
         lines
     }
@@ -107,17 +121,17 @@ impl SourceInfo {
             if self.get_next_char(end) == Some('\n') && end > 0 {
                 end -= 1
             }
-            res_string += &self.code[start..=end];
+            res_string += self.slice(start, end + 1);
             res_string.push('\n');
             use std::cmp::*;
             let lead = if loc.0 <= line.top {
                 0
             } else {
-                console::measure_text_width(&self.code[start..loc.0])
+                console::measure_text_width(self.slice(start, loc.0))
             };
             let range_start = max(loc.0, line.top);
             let range_end = min(loc.1, line.end);
-            let length = console::measure_text_width(&self.code[range_start..=range_end]);
+            let length = console::measure_text_width(self.slice(range_start, range_end + 1));
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
             res_string += "\n";
@@ -129,14 +143,14 @@ impl SourceInfo {
                 Some(line) => (line.no + 1, line.end + 1, loc.1),
                 None => (1, 0, loc.1),
             };
-            let lead = console::measure_text_width(&self.code[line.1..loc.0]);
-            let length = console::measure_text_width(&self.code[loc.0..loc.1]);
+            let lead = console::measure_text_width(self.slice(line.1, loc.0));
+            let length = console::measure_text_width(self.slice(loc.0, loc.1));
             let is_cr = loc.1 >= self.code.len() || self.get_next_char(loc.1) == Some('\n');
             res_string += &format!("{}:{}\n", self.path.to_string_lossy(), line.0);
             res_string += if !is_cr {
-                &self.code[line.1..=loc.1]
+                self.slice(line.1, loc.1 + 1)
             } else {
-                &self.code[line.1..loc.1]
+                self.slice(line.1, loc.1)
             };
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length + 1);
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 53eeb15..1f3893a 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -279,8 +279,11 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
+    // The argument may be the receiver itself.
+    let is_self = vm[0].id() == self_val.id();
     let lhs = self_val.as_mut_rstring().unwrap();
     match vm[0].as_rstring() {
+        Some(rhs) if is_self => lhs.append(&rhs.clone()),
         Some(rhs) => lhs.append(rhs),
         None => match vm[0].as_fixnum() {
             Some(i) => {
-- 
2.43.0


From b7abf327d0dbda6d72cbd0ccee216d853f4f3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 024/127] fix: back references beyond \1 in literals, ^ and $
 at every line in Regexp.new

---
 ruruby-parse/src/parser/lexer.rs | 2 +-
 ruruby/src/builtin/regexp.rs     | 3 ++-
 ruruby/src/value/value.rs        | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index bc4db3d..c22d1c7 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -919,7 +919,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if ('1'..='9').contains(&ch) && !self.peek_digit() {
                                 s.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 5bf4347..415ab87 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -459,7 +459,8 @@ fn regexp_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let string = arg0.expect_string("1st arg")?;
-    let val = Value::regexp_from(vm, string)?;
+    // ^ and $ match at every line, as in literals.
+    let val = Value::regexp_from(vm, &format!("(?m){}", string))?;
     Ok(val)
 }
 
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 6bfc04b..3a89835 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -687,7 +687,7 @@ impl Value {
         if let Some(re) = self.as_regexp() {
             Ok(re)
         } else if let Some(string) = self.as_string() {
-            vm.regexp_from_string(string)
+            vm.regexp_from_string(&format!("(?m){}", string))
         } else {
             Err(VMError::wrong_type(msg, "RegExp or String.", val))
         }
-- 
2.43.0


From d6056705a16daa91857c1cac56d9bc76d49877db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 025/127] fix: complex numbers print in Ruby's notation
 everywhere, accept big integers, equal reals symmetrically and raise on
 division by zero; float powers are correctly rounded

---
 ruruby/src/arith.rs           | 5 +----
 ruruby/src/builtin/complex.rs | 3 +++
 ruruby/src/value/real.rs      | 4 ++--
 ruruby/src/value/value.rs     | 4 ++++
 ruruby/src/vm/executor.rs     | 1 -
 ruruby/src/vm/executor/ops.rs | 4 +++-
 6 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index 7b55361..7d1276b 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -118,10 +118,7 @@ pub(crate) fn exp_fixnum(lhsi: i64, rhs: Value) -> VMResult {
 
 pub(crate) fn exp_float(lhsf: f64, rhs: Value) -> VMResult {
     let f = if let Some(rhsi) = rhs.as_fixnum() {
-        match rhsi.try_into() {
-            Ok(r) => lhsf.powi(r),
-            Err(_) => lhsf.powf(rhsi as f64),
-        }
+        lhsf.powf(rhsi as f64)
     } else if let Some(rhsf) = rhs.as_float() {
         lhsf.powf(rhsf)
     } else if let Some(rhsb) = rhs.as_bignum() {
diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index 61c28e4..e7e04de 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -76,6 +76,9 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::typeerr("Not a real.")),
     };
     let abs2 = r2.clone().exp2() + i2.clone().exp2();
+    if abs2.is_zero() && !matches!(abs2, Real::Float(_)) {
+        return Err(RubyError::zero_div("Divided by zero."));
+    }
     let r = (r2.clone() * r1.clone() + i2.clone() * i1.clone()) / abs2.clone();
     let i = (r2 * i1 - r1 * i2) / abs2;
     Ok(Value::complex(r.into_val(), i.into_val()))
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index 21fc52b..c99aab9 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -27,7 +27,7 @@ impl Real {
 
     pub(crate) fn is_negative(&self) -> bool {
         match self {
-            Real::Bignum(n) => !n.is_positive(),
+            Real::Bignum(n) => n.is_negative(),
             Real::Integer(i) => i.is_negative(),
             Real::Float(f) => f.is_sign_negative(),
         }
@@ -82,7 +82,7 @@ impl Debug for Real {
         match self {
             Real::Bignum(n) => write!(f, "{}", *n),
             Real::Integer(num) => write!(f, "{}", *num),
-            Real::Float(num) => write!(f, "{}", *num),
+            Real::Float(num) => write!(f, "{}", float_to_s(*num)),
         }
     }
 }
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 3a89835..5258169 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -341,6 +341,7 @@ impl Value {
     pub(crate) fn is_real(&self) -> bool {
         match self.unpack() {
             RV::Float(_) | RV::Integer(_) => true,
+            RV::Object(oref) => oref.kind() == ObjKind::BIGNUM,
             _ => false,
         }
     }
@@ -1264,6 +1265,9 @@ impl Value {
             RV::Integer(i) => Some((Real::Integer(i), Real::Integer(0))),
             RV::Float(f) => Some((Real::Float(f), Real::Integer(0))),
             RV::Object(obj) => match obj.kind() {
+                ObjKind::BIGNUM => {
+                    Some((Real::Bignum((*obj.bignum()).clone()), Real::Integer(0)))
+                }
                 ObjKind::COMPLEX => {
                     let RubyComplex { r, i } = *obj.complex();
                     Some((r.to_real().unwrap(), i.to_real().unwrap()))
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 519e060..efb3dd3 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -794,7 +794,6 @@ impl VM {
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
                 ObjKind::ORDINARY => oref.inspect()?,
                 ObjKind::HASH => oref.rhash().to_s(self)?,
-                ObjKind::COMPLEX => format!("{:?}", oref.complex()),
                 _ => {
                     let id = IdentId::get_id("inspect");
                     self.eval_send0(id, val)?
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 73eb731..fd558b0 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -380,6 +380,9 @@ impl VM {
                 return Ok(Some(rhsi as f64 == lhsf));
             }
         }
+        if rhs.as_complex().is_some() && lhs.is_real() {
+            return Ok(Some(lhs.to_complex() == rhs.to_complex()));
+        }
         if lhs.is_packed_value() || rhs.is_packed_value() {
             return Ok(match (lhs.unpack(), rhs.unpack()) {
                 (RV::Float(f), RV::Object(obj)) | (RV::Object(obj), RV::Float(f))
@@ -444,7 +447,6 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
-            (ObjKind::FLOAT, ObjKind::COMPLEX) => return Ok(None),
             (ObjKind::FLOAT, _) => false,
             (_, _) => return Ok(None),
         };
-- 
2.43.0


From 1c3df8f78c2dc34eb8ea7baf59cefd4f1de75785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 026/127] fix: 2.0**-255 was packed as 0.0; complex and real
 numbers compare symmetrically

---
 ruruby/src/value/value.rs     | 4 +++-
 ruruby/src/vm/executor/ops.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 5258169..7bb2e8b 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -15,6 +15,8 @@ const BOOL_MASK2: u64 = 0xffff_ffff_ffff_ffcf;
 const FLOAT_MASK1: u64 = !(0b0110u64 << 60);
 const FLOAT_MASK2: u64 = 0b0100u64 << 60;
 
+/// Bits of 2.0**-255, whose packed form would be that of 0.0.
+const FLOAT_AS_ZERO: u64 = 0b0011u64 << 60;
 const ZERO: u64 = (0b1000 << 60) | 0b10;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -1034,7 +1036,7 @@ impl Value {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        if (exp & 0b0110) == 0b0100 && unum != FLOAT_AS_ZERO {
             Value::from((unum & FLOAT_MASK1 | FLOAT_MASK2).rotate_left(3))
         } else {
             RValue::new_float(num).pack()
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index fd558b0..d131d85 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -380,7 +380,9 @@ impl VM {
                 return Ok(Some(rhsi as f64 == lhsf));
             }
         }
-        if rhs.as_complex().is_some() && lhs.is_real() {
+        if lhs.as_complex().is_some() && rhs.is_real()
+            || rhs.as_complex().is_some() && lhs.is_real()
+        {
             return Ok(Some(lhs.to_complex() == rhs.to_complex()));
         }
         if lhs.is_packed_value() || rhs.is_packed_value() {
-- 
2.43.0


From db1e210c60922b7586458fc9787185ed009d7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:37 +0000
Subject: [PATCH 027/127] fix: ranges and integer loops with float, big or
 string bounds panicked or visited wrong values; each and map take symbol
 blocks

---
 ruruby/src/builtin/integer.rs    | 114 ++++++++++++++++------
 ruruby/src/builtin/range.rs      | 160 +++++++++++++++++++------------
 ruruby/src/value/real.rs         |   9 +-
 ruruby/src/vm/executor/method.rs |  18 +++-
 4 files changed, 205 insertions(+), 96 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index f3cf7f8..0d39a04 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use num::Integer;
-use num::{bigint::ToBigInt, BigInt, Signed, ToPrimitive, Zero};
+use num::{bigint::ToBigInt, BigInt, FromPrimitive, Signed, ToPrimitive, Zero};
 use std::convert::TryInto;
 use std::ops::{BitAnd, BitOr, BitXor};
 
@@ -393,14 +393,31 @@ fn upto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
-    let max = vm[0].coerce_to_fixnum("Arg")?;
-    if num <= max {
-        let iter = (num..max + 1).map(|i| Value::integer(i));
-        vm.eval_block_each1_iter(block, iter, self_val)
-        //Ok(self_val)
-    } else {
-        Ok(self_val)
+    let (num, max) = (self_val.to_real().unwrap(), integer_limit(vm[0], f64::floor)?);
+    if let (Real::Integer(num), Real::Integer(max)) = (&num, &max) {
+        let iter = (*num..max + 1).map(|i| Value::integer(i));
+        return vm.eval_block_each1_iter(block, iter, self_val);
+    }
+    let mut num = num;
+    let iter = std::iter::from_fn(|| {
+        (num <= max).then(|| {
+            let val = num.clone().into_val();
+            num = num.clone() + Real::Integer(1);
+            val
+        })
+    });
+    vm.eval_block_each1_iter(block, iter, self_val)
+}
+
+/// The limit of an iteration over integers: a float is rounded by `round`.
+fn integer_limit(val: Value, round: fn(f64) -> f64) -> Result<Real, RubyError> {
+    match val.to_real() {
+        Some(Real::Float(f)) => match BigInt::from_f64(round(f)) {
+            Some(n) => Ok(Real::integer(n)),
+            None => Ok(Real::Float(f)),
+        },
+        Some(real) => Ok(real),
+        None => Err(VMError::cant_coerse(val, "Integer")),
     }
 }
 
@@ -417,15 +434,20 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
-    let min = vm[0].coerce_to_fixnum("Arg")?;
-    if num >= min {
-        let iter = (min..num + 1).rev().map(|i| Value::integer(i));
-        //Ok(self_val)
-        vm.eval_block_each1_iter(block, iter, self_val)
-    } else {
-        Ok(self_val)
+    let (num, min) = (self_val.to_real().unwrap(), integer_limit(vm[0], f64::ceil)?);
+    if let (Real::Integer(num), Real::Integer(min)) = (&num, &min) {
+        let iter = (*min..num + 1).rev().map(|i| Value::integer(i));
+        return vm.eval_block_each1_iter(block, iter, self_val);
     }
+    let mut num = num;
+    let iter = std::iter::from_fn(|| {
+        (num >= min).then(|| {
+            let val = num.clone().into_val();
+            num = num.clone() - Real::Integer(1);
+            val
+        })
+    });
+    vm.eval_block_each1_iter(block, iter, self_val)
 }
 
 struct PosStep {
@@ -476,25 +498,57 @@ fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let cur = self_val.as_fixnum().unwrap();
-    let limit = vm[0].coerce_to_fixnum("Limit")?;
+    let cur = self_val.to_real().unwrap();
+    let limit = match vm[0].to_real() {
+        Some(limit) => limit,
+        None => return Err(VMError::cant_coerse(vm[0], "Integer")),
+    };
     let step = if args.len() == 2 {
-        let step = vm[1].coerce_to_fixnum("Step")?;
-        if step == 0 {
-            return Err(RubyError::argument("Step can not be 0."));
+        match vm[1].to_real() {
+            Some(step) if step.is_zero() => {
+                return Err(RubyError::argument("Step can not be 0."));
+            }
+            Some(step) => step,
+            None => return Err(VMError::cant_coerse(vm[1], "Integer")),
         }
-        step
     } else {
-        1
+        Real::Integer(1)
     };
 
-    if step > 0 {
-        let iter = PosStep { cur, step, limit };
-        vm.eval_block_each1_iter(block, iter, self_val)
-    } else {
-        let iter = NegStep { cur, step, limit };
-        vm.eval_block_each1_iter(block, iter, self_val)
+    if let (&Real::Integer(cur), &Real::Integer(limit), &Real::Integer(step)) = (&cur, &limit, &step)
+    {
+        return if step > 0 {
+            let iter = PosStep { cur, step, limit };
+            vm.eval_block_each1_iter(block, iter, self_val)
+        } else {
+            let iter = NegStep { cur, step, limit };
+            vm.eval_block_each1_iter(block, iter, self_val)
+        };
+    }
+    if matches!(limit, Real::Float(_)) || matches!(step, Real::Float(_)) {
+        // The values are computed from their number, so that errors do not add up.
+        let (beg, end, unit) = (cur.to_f64(), limit.to_f64(), step.to_f64());
+        let err = (beg.abs() + end.abs() + (end - beg).abs()) / unit.abs() * f64::EPSILON;
+        let n = ((end - beg) / unit + err.min(0.5)).floor();
+        let iter = (0..)
+            .take_while(move |i| *i as f64 <= n)
+            .map(move |i: i64| {
+                let f = i as f64 * unit + beg;
+                Value::float(if unit > 0.0 { f.min(end) } else { f.max(end) })
+            });
+        return vm.eval_block_each1_iter(block, iter, self_val);
     }
+    let mut cur = cur;
+    let negative = step.is_negative();
+    let iter = std::iter::from_fn(|| {
+        let inside = if negative { cur >= limit } else { cur <= limit };
+        inside.then(|| {
+            let val = cur.clone().into_val();
+            cur = cur.clone() + step.clone();
+            val
+        })
+    });
+    vm.eval_block_each1_iter(block, iter, self_val)
 }
 
 /// Built-in function "chr".
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index bb34197..10f85f4 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -91,11 +91,66 @@ fn end(_vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(range.end)
 }
 
+/// The integers of the range as an ascending Rust range, if its start is an integer.
+fn integer_bounds(range: &RangeInfo) -> Result<std::ops::Range<i64>, RubyError> {
+    let start = match range.start.as_fixnum() {
+        Some(i) => i,
+        None => {
+            return Err(RubyError::typeerr(format!(
+                "Can't iterate from {}.",
+                range.start.get_class_name()
+            )))
+        }
+    };
+    let end = match range.end.as_float() {
+        Some(f) if range.exclude => f.ceil() as i64,
+        Some(f) => (f.floor() as i64).saturating_add(1),
+        None => range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 },
+    };
+    Ok(start..end)
+}
+
+/// The elements of a range whose start is a string.
+fn string_elements(vm: &mut VM, range: &RangeInfo) -> Result<Option<Vec<Value>>, RubyError> {
+    let start = match range.start.as_string() {
+        Some(s) => s.to_string(),
+        None => return Ok(None),
+    };
+    let mut end = range.end;
+    let end = end.expect_string("Range.end")?.to_string();
+    let mut v = vec![];
+    // single character
+    if start.is_ascii() && end.is_ascii() && start.len() == 1 && end.len() == 1 {
+        let (start, end) = (start.as_bytes()[0], end.as_bytes()[0]);
+        for b in start..=end {
+            if b < end || !range.exclude {
+                v.push(Value::string((b as char).to_string()));
+            }
+        }
+        return Ok(Some(v));
+    }
+    if start.len() > end.len() || start.len() == end.len() && start > end {
+        return Ok(Some(v));
+    }
+    let len = vm.temp_len();
+    let mut cur = range.start;
+    loop {
+        let s = cur.expect_string("Range element")?.to_string();
+        if s.chars().count() > end.chars().count() || s == end && range.exclude {
+            break;
+        }
+        vm.temp_push(Value::string(s.clone()));
+        if s == end {
+            break;
+        }
+        cur = vm.eval_send0(IdentId::get_id("succ"), cur)?;
+    }
+    Ok(Some(vm.temp_pop_vec(len)))
+}
+
 fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let start = range.start.as_fixnum().unwrap();
-    let mut end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.start);
     };
@@ -103,21 +158,20 @@ fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let mut v = vec![];
-    if start + arg - 1 < end {
-        end = start + arg - 1;
-    };
-    for i in start..=end {
-        v.push(Value::integer(i));
+    if let Some(mut v) = string_elements(vm, range)? {
+        v.truncate(arg as usize);
+        return Ok(Value::array_from(v));
     }
+    let v = integer_bounds(range)?
+        .take(arg as usize)
+        .map(|i| Value::integer(i))
+        .collect();
     Ok(Value::array_from(v))
 }
 
 fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let mut start = range.start.as_fixnum().unwrap();
-    let end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.end);
     };
@@ -125,23 +179,29 @@ fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let mut v = vec![];
-    if end - arg + 1 > start {
-        start = end - arg + 1;
-    };
-    for i in start..=end {
-        v.push(Value::integer(i));
+    if let Some(v) = string_elements(vm, range)? {
+        let skip = v.len().saturating_sub(arg as usize);
+        return Ok(Value::array_from(v[skip..].to_vec()));
     }
-    Ok(Value::array_from(v))
+    let std::ops::Range { start, end } = integer_bounds(range)?;
+    let start = std::cmp::max(start, end.saturating_sub(arg));
+    Ok(Value::array_from(
+        (start..end).map(|i| Value::integer(i)).collect(),
+    ))
 }
 
 fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-    let res = vm.eval_block_map1_iter(block, (start..end).map(|i| Value::integer(i)))?;
+    if let Some(v) = string_elements(vm, range)? {
+        let len = vm.temp_len();
+        vm.temp_extend_from_slice(&v);
+        let res = vm.eval_block_map1_iter(block, v.into_iter());
+        vm.temp_pop_vec(len);
+        return res;
+    }
+    let res = vm.eval_block_map1_iter(block, integer_bounds(range)?.map(|i| Value::integer(i)))?;
     Ok(res)
 }
 
@@ -149,11 +209,10 @@ fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let bounds = integer_bounds(range)?;
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
-    for i in start..end {
+    for i in bounds {
         let val = f(vm, Value::integer(i))?;
         match val.as_array() {
             Some(aref) => {
@@ -178,10 +237,14 @@ fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-
-    let iter = (start..end).map(|i| Value::integer(i));
+    if let Some(v) = string_elements(vm, range)? {
+        let len = vm.temp_len();
+        vm.temp_extend_from_slice(&v);
+        let res = vm.eval_block_each1_iter(block, v.into_iter(), self_val);
+        vm.temp_pop_vec(len);
+        return res;
+    }
+    let iter = integer_bounds(range)?.map(|i| Value::integer(i));
     vm.eval_block_each1_iter(block, iter, self_val)
 }
 
@@ -189,10 +252,9 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let bounds = integer_bounds(range)?;
     let f = vm.eval_block_map1(block);
-    for i in start..end {
+    for i in bounds {
         let res = f(vm, Value::integer(i))?;
         if !res.to_bool() {
             return Ok(Value::false_val());
@@ -201,38 +263,14 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::true_val())
 }
 
-fn to_a(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn to_a(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let RangeInfo {
-        start,
-        end,
-        exclude,
-    } = *self_val.as_range().unwrap();
-    if let Some(start) = start.as_fixnum() {
-        let end = end.coerce_to_fixnum("Range.end")?;
-        let v = if exclude { start..end } else { start..end + 1 }
-            .map(|i| Value::integer(i))
-            .collect();
-        Ok(Value::array_from(v))
-    } else if let Some(start) = start.as_string() {
-        let mut end = end;
-        let end = end.expect_string("Range.end")?;
-        // single character
-        if start.is_ascii() && end.is_ascii() && start.len() == 1 && end.len() == 1 {
-            let (start, end) = (start.as_bytes()[0], end.as_bytes()[0]);
-            if start > end || start == end && exclude {
-                return Ok(Value::array_empty());
-            }
-            let v = if exclude { start..end } else { start..end + 1 }
-                .map(|b| Value::string((b as char).to_string()))
-                .collect();
-            Ok(Value::array_from(v))
-        } else {
-            unimplemented!()
-        }
-    } else {
-        unimplemented!()
-    }
+    let range = self_val.as_range().unwrap();
+    let v = match string_elements(vm, range)? {
+        Some(v) => v,
+        None => integer_bounds(range)?.map(|i| Value::integer(i)).collect(),
+    };
+    Ok(Value::array_from(v))
 }
 
 fn exclude_end(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index c99aab9..c3d5f9a 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -144,9 +144,9 @@ impl PartialEq for Real {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (Real::Bignum(n1), Real::Bignum(n2)) => n1 == n2,
-            (Real::Bignum(_), Real::Integer(_)) => false,
+            (Real::Bignum(n1), Real::Integer(i2)) => *n1 == BigInt::from(*i2),
             (Real::Bignum(n1), Real::Float(f2)) => n1.to_f64().unwrap() == *f2,
-            (Real::Integer(_), Real::Bignum(_)) => false,
+            (Real::Integer(i1), Real::Bignum(n2)) => BigInt::from(*i1) == *n2,
             (Real::Integer(i1), Real::Integer(i2)) => i1 == i2,
             (Real::Integer(i1), Real::Float(f2)) => *i1 as f64 == *f2,
             (Real::Float(f1), Real::Bignum(n2)) => *f1 == n2.to_f64().unwrap(),
@@ -169,6 +169,11 @@ impl Neg for Real {
 
 impl PartialOrd for Real {
     fn partial_cmp(&self, other: &Real) -> Option<std::cmp::Ordering> {
+        match (self, other) {
+            (Real::Bignum(n1), Real::Integer(i2)) => return Some(n1.cmp(&BigInt::from(*i2))),
+            (Real::Integer(i1), Real::Bignum(n2)) => return Some(BigInt::from(*i1).cmp(n2)),
+            _ => {}
+        }
         match self {
             Real::Bignum(n1) => arith::cmp_bignum(n1, other.clone().into_val()),
             Real::Integer(i1) => arith::cmp_fixnum(*i1, other.clone().into_val()),
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 3cb765a..0581c43 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -99,7 +99,12 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                for v in iter {
+                    self.eval_send0(*sym, v)?;
+                }
+                return Ok(default);
+            }
         };
 
         use MethodInfo::*;
@@ -152,7 +157,14 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                let len = self.temp_len();
+                for v in iter {
+                    let res = self.eval_send0(*sym, v)?;
+                    self.temp_push(res);
+                }
+                return Ok(Value::array_from(self.temp_pop_vec(len)));
+            }
         };
 
         use MethodInfo::*;
@@ -265,7 +277,7 @@ impl VM {
                 self.invoke_block(*method, outer, &args)?.handle(self)
             }
             Block::Proc(proc) => self.eval_proc(*proc, self_value, &args),
-            _ => unimplemented!(),
+            Block::Sym(sym) => self.eval_send0(*sym, self_value),
         }
     }
 
-- 
2.43.0


From b3b4a0a37e908f4383ca738f2e43effe88e1114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:39 +0000
Subject: [PATCH 028/127] fix: the do of a for loop was read as a block of the
 iterated call, and blocks in loop conditions could not use do

---
 ruruby-parse/src/parser.rs              | 3 +++
 ruruby-parse/src/parser/flow_control.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 4413d50..279765d 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -384,6 +384,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 self.suppress_mul_assign = old_suppress_mul_flag;
                 return Ok(None);
             };
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = false;
         // BLOCK: do [`|' [BLOCK_VAR] `|'] COMPSTMT end
         let loc = self.prev_loc();
         self.context_stack.push(ParseContext::new_block(None));
@@ -405,6 +407,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let loc = loc.merge(self.prev_loc());
         let node = Node::new_lambda(params, body, lvar, loc);
         self.suppress_mul_assign = old_suppress_mul_flag;
+        self.suppress_do_block = old_suppress_do_flag;
         Ok(Some(Box::new(node)))
     }
 
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 78a2d92..f583ac4 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -82,7 +82,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From 47580f669af94548ac462e1de972e57eb4d17df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 029/127] fix: Comparable operators aborted or answered false
 when <=> gave nil; sort and min kept elements dropped by the block

---
 ruruby/src/builtin/array.rs      |  6 ++++
 ruruby/src/builtin/comparable.rs | 58 +++++++++++---------------------
 ruruby/src/value/value.rs        |  2 ++
 ruruby/src/vm/executor.rs        |  8 +++--
 4 files changed, 33 insertions(+), 41 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 5821ecd..1dc5bad 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -637,6 +637,8 @@ fn min(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Ok(Value::nil()),
     };
     for elem in iter {
+        vm.temp_push(min);
+        vm.temp_push(elem);
         if compare_elem(vm, elem, min)? == std::cmp::Ordering::Less {
             min = elem;
         }
@@ -664,6 +666,8 @@ fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Ok(Value::nil()),
     };
     for elem in iter {
+        vm.temp_push(max);
+        vm.temp_push(elem);
         if compare_elem(vm, elem, max)? == std::cmp::Ordering::Greater {
             max = elem;
         };
@@ -965,6 +969,8 @@ fn sort(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     //use std::cmp::Ordering;
     args.check_args_num(0)?;
     let mut ary = self_val.expect_array("Receiver")?.to_vec();
+    // The block (or <=>) may change the receiver: keep the elements alive.
+    vm.temp_push_vec(&ary);
     match &args.block {
         None => {
             vm.sort_array(&mut ary)?;
diff --git a/ruruby/src/builtin/comparable.rs b/ruruby/src/builtin/comparable.rs
index f69dff2..efd4e42 100644
--- a/ruruby/src/builtin/comparable.rs
+++ b/ruruby/src/builtin/comparable.rs
@@ -27,56 +27,36 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(b))
 }
 
-fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+/// Compare `self` with the first argument by `<=>`.
+/// `<=>` returning nil means that they are not comparable: it is an error.
+fn compare(vm: &mut VM, self_val: Value, args: &Args2) -> Result<std::cmp::Ordering, RubyError> {
     args.check_args_num(1)?;
+    let other = vm[0];
     let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i <= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    if res.is_nil() {
+        return Err(RubyError::argument(format!(
+            "comparison of {} with {} failed",
+            self_val.get_class_name(),
+            other.get_class_name()
+        )));
+    }
+    res.to_ordering()
+}
+
+fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    Ok(Value::bool(compare(vm, self_val, args)?.is_le()))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i < 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_lt()))
 }
 
 fn ge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i >= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_ge()))
 }
 
 fn gt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i > 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_gt()))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 7bb2e8b..ec88166 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1171,6 +1171,8 @@ impl Value {
                 Sign::Minus => Ok(Ordering::Less),
                 _ => Ok(Ordering::Equal),
             }
+        } else if let Some(ord) = self.as_float().and_then(|f| f.partial_cmp(&0.0)) {
+            Ok(ord)
         } else {
             Err(RubyError::argument("Ordering value must be Integer."))
         }
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index efb3dd3..e65d9c1 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -242,6 +242,10 @@ impl VM {
         self.temp_stack.push(v);
     }
 
+    pub(crate) fn temp_push_vec(&mut self, slice: &[Value]) {
+        self.temp_stack.extend_from_slice(slice);
+    }
+
     pub(crate) fn temp_pop_vec(&mut self, len: usize) -> Vec<Value> {
         self.temp_stack.split_off(len)
     }
@@ -740,8 +744,8 @@ impl VM {
             for v in &vec[1..] {
                 match self.eval_compare(*v, val)? {
                     val if val.is_nil() => {
-                        let lhs = val.get_class_name();
-                        let rhs = v.get_class_name();
+                        let lhs = v.get_class_name();
+                        let rhs = vec[0].get_class_name();
                         return Err(RubyError::argument(format!(
                             "Comparison of {} with {} failed.",
                             lhs, rhs
-- 
2.43.0


From 08fc0b930f6126eca6dffe17f737f9b3c33a1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:20 +0000
Subject: [PATCH 030/127] fix: Array#bsearch ignored the sign of numeric block
 results in find-any mode

---
 ruruby/src/builtin/array.rs | 44 +++++++++++++++++++------------------
 ruruby/src/value/value.rs   |  9 ++++----
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 1dc5bad..0f9b47e 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -1183,37 +1183,39 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>, RubyError> {
+    use std::cmp::Ordering;
     if ary.len() == 0 {
         return Ok(None);
     };
+    // find-minimum mode: the block answers true (an element to find) or false / nil.
+    // find-any mode: the block answers 0 (an element to find), a positive number (the
+    // element to find is on the right) or a negative one (it is on the left).
+    let mut found = None;
     let mut i_min = 0;
-    let mut i_max = ary.len() - 1;
+    let mut i_max = ary.len();
+    let mut i_mid = 0;
     let f = vm.eval_block_map1(block);
-    if f(vm, ary[0])?.expect_bool_nil_num()? {
-        return Ok(Some(0));
-    };
-    let last = match ary.get(i_max) {
-        Some(last) => *last,
-        None => return Ok(None),
-    };
-    if !f(vm, last)?.expect_bool_nil_num()? {
-        return Ok(None);
-    };
-
     loop {
-        let i_mid = i_min + (i_max - i_min) / 2;
-        if i_mid == i_min {
-            return Ok(Some(i_max));
-        };
         let mid = match ary.get(i_mid) {
             Some(mid) => *mid,
             None => return Ok(None),
         };
-        if f(vm, mid)?.expect_bool_nil_num()? {
-            i_max = i_mid;
-        } else {
-            i_min = i_mid;
-        };
+        let res = f(vm, mid)?;
+        match res.expect_bool_nil_num()? {
+            Ordering::Equal => {
+                if !matches!(res.unpack(), RV::True) {
+                    return Ok(Some(i_mid));
+                }
+                found = Some(i_mid);
+                i_max = i_mid;
+            }
+            Ordering::Less => i_max = i_mid,
+            Ordering::Greater => i_min = i_mid + 1,
+        }
+        if i_min >= i_max {
+            return Ok(found);
+        }
+        i_mid = i_min + (i_max - i_min) / 2;
     }
 }
 
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index ec88166..1bcabfe 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1236,11 +1236,12 @@ impl Value {
         self.get() & BOOL_MASK2 | BOOL_MASK1 != 0x34
     }
 
-    pub(crate) fn expect_bool_nil_num(self) -> Result<bool, RubyError> {
+    pub(crate) fn expect_bool_nil_num(self) -> Result<std::cmp::Ordering, RubyError> {
+        use std::cmp::Ordering;
         match self.unpack() {
-            RV::True | RV::Integer(0) => Ok(true),
-            RV::Float(f) if f == 0.0 => Ok(true),
-            RV::False | RV::Nil | RV::Integer(_) | RV::Float(_) => Ok(false),
+            RV::True => Ok(Ordering::Equal),
+            RV::False | RV::Nil => Ok(Ordering::Greater),
+            _ if self.to_real().is_some() => self.to_ordering(),
             _ => Err(RubyError::typeerr(format!(
                 "Wrong argument type {} (must be numeric, true, false or nil)",
                 self.get_class_name()
-- 
2.43.0


From 4cd21b5662f283385697a8cd7c5725894ad6efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 031/127] fix: p and inspect of containers ignored inspect
 methods of objects

---
 ruruby/src/value/hash.rs  | 8 +++++++-
 ruruby/src/vm/executor.rs | 1 -
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 160358c..f51e1b5 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -342,7 +342,13 @@ impl HashInfo {
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
-                for (k, v) in self.iter() {
+                // #inspect of an element may change this hash.
+                let pairs: Vec<_> = self.iter().collect();
+                for (k, v) in &pairs {
+                    vm.temp_push(*k);
+                    vm.temp_push(*v);
+                }
+                for (k, v) in pairs {
                     let k_inspect = vm.val_inspect(k)?;
                     let v_inspect = vm.val_inspect(v)?;
                     result = if first {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index e65d9c1..fe244f6 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -796,7 +796,6 @@ impl VM {
                 ObjKind::RANGE => oref.range().inspect(self)?,
                 ObjKind::MODULE | ObjKind::CLASS => oref.module().inspect(),
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
-                ObjKind::ORDINARY => oref.inspect()?,
                 ObjKind::HASH => oref.rhash().to_s(self)?,
                 _ => {
                     let id = IdentId::get_id("inspect");
-- 
2.43.0


From d6af77a720e172f8fbfc9739fd2ce148ee49b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 032/127] fix: Array#inspect aborted when an element's inspect
 shortened the array

---
 ruruby/src/builtin/array.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 0f9b47e..e756fbb 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -152,18 +152,11 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
             vm.val_inspect(elem)
         }
     }
-    let ary = self_val.into_array();
-    let s = match ary.len() {
-        0 => "[]".to_string(),
-        len => {
-            let mut result = checked_inspect(vm, self_val, ary[0])?;
-            for i in 1..len {
-                result = format!("{}, {}", result, checked_inspect(vm, self_val, ary[i])?);
-            }
-            format! {"[{}]", result}
-        }
-    };
-    Ok(Value::string(s))
+    let mut result = vec![];
+    for elem in self_val.into_array().live_iter() {
+        result.push(checked_inspect(vm, self_val, elem)?);
+    }
+    Ok(Value::string(format!("[{}]", result.join(", "))))
 }
 
 fn toa(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-- 
2.43.0


From fa361943d376bfb872e5c56a633efa082c5825a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:31 +0000
Subject: [PATCH 033/127] fix: a captured frame kept a block of a frame that
 may have ended, and captured frames did not keep self and block alive

---
 ruruby/src/vm/executor/frame.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 0fa344d..42c60a4 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -238,6 +238,8 @@ impl GC<RValue> for EnvFrame {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
         self.locals().iter().for_each(|v| v.mark(alloc));
         if self.is_ruby_func() {
+            self.self_value().mark(alloc);
+            self[EV_BLK].mark(alloc);
             if let Some(d) = self.outer() {
                 d.mark(alloc)
             }
@@ -780,6 +782,11 @@ impl VM {
             return ep;
         }
         let outer = ep.outer().map(|d| self.move_ep_to_heap(d));
+        // The frame on the heap may outlive the frame which its block refers to.
+        let mut ep = ep;
+        if let Some(block @ Block::Block(..)) = ep.block() {
+            ep[EV_BLK] = self.create_proc(&block);
+        }
         let heap_ep = HeapCtxRef::dup_frame(ep, outer).as_ep();
 
         if self.cfp.as_ptr() == ep.as_ptr() {
-- 
2.43.0


From 24309cfe9477bfe34c92a2134bee01a94a17f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 034/127] fix: exception classes could not define initialize
 with other arguments; Array.new(n) ignored its block

---
 ruruby/src/builtin/array.rs     | 14 +++++++++++++-
 ruruby/src/builtin/exception.rs | 28 ++++++++++++++++++----------
 ruruby/src/value/rvalue.rs      |  4 ++++
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index e756fbb..e07be2d 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -106,7 +106,19 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 if num > MAX_ARRAY_LEN {
                     return Err(RubyError::argument("Array size too big."));
                 };
-                vec![Value::nil(); num as usize]
+                match &args.block {
+                    Some(block) => {
+                        let mut vec = vec![];
+                        let f = vm.eval_block_map1(block);
+                        for i in 0..num {
+                            let v = f(vm, Value::integer(i))?;
+                            vm.temp_push(v);
+                            vec.push(v);
+                        }
+                        vec
+                    }
+                    None => vec![Value::nil(); num as usize],
+                }
             }
             RV::Object(oref) => match oref.kind() {
                 ObjKind::ARRAY => oref.array().to_vec(),
diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index c2eef0b..04d4bb1 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -7,6 +7,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     exception.add_builtin_class_method(globals, "exception", exception_new);
     exception.add_builtin_class_method(globals, "allocate", exception_allocate);
 
+    exception.add_builtin_method_by_str(globals, "initialize", initialize);
     exception.add_builtin_method_by_str(globals, "inspect", inspect);
     exception.add_builtin_method_by_str(globals, "to_s", tos);
     builtin::module::set_attr_accessor(
@@ -73,21 +74,28 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 // Class methods
 
 fn exception_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(0, 1)?;
     let self_val = self_val.into_module();
-    let new_instance = if args.len() == 0 {
-        let class_name = self_val.name();
-        Value::exception(self_val, RubyError::none(class_name))
-    } else {
-        let mut arg = vm[0];
-        let err = arg.expect_string("1st arg")?;
-        Value::exception(self_val, RubyError::none(err))
-    };
-    // Call initialize method if it exists.
+    let new_instance = Value::exception(self_val, RubyError::none(self_val.name()));
     vm.eval_initialize(self_val, new_instance, args)?;
     Ok(new_instance)
 }
 
+fn initialize(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_range(0, 1)?;
+    if args.len() == 1 && !vm[0].is_nil() {
+        let arg = vm[0];
+        let msg = arg.val_to_s(vm)?.to_string();
+        self_val.set_var(
+            IdentId::get_id("@message"),
+            Value::string(msg.clone()),
+        );
+        self_val
+            .rvalue_mut()
+            .set_exception(RubyError::none(msg));
+    }
+    Ok(Value::nil())
+}
+
 fn exception_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let self_val = self_val.into_module();
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 74e8ff7..7de7d33 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -371,6 +371,10 @@ impl RValue {
         unsafe { &**self.kind.exception }
     }
 
+    pub(crate) fn set_exception(&mut self, err: RubyError) {
+        unsafe { **self.kind.exception = err }
+    }
+
     #[inline(always)]
     pub fn binding(&self) -> EnvFrame {
         unsafe { self.kind.binding }
-- 
2.43.0


From b93b57402cbc2a51106c97658d05f4db50d78402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 035/127] fix: a failing comparison in a condition panicked,
 the last equal when label won, sparse labels exhausted memory and integer
 labels did not match floats

---
 ruruby/src/codegen.rs              | 21 ++++++++++++++-------
 ruruby/src/value/value.rs          | 12 ++++++++++++
 ruruby/src/vm/executor/opt_core.rs |  4 ++--
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index b9bd872..71f89dc 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -566,8 +566,9 @@ impl Codegen {
                     };
                     iseq.push(inst);
                     iseq.push32(i as u32);
-                    iseq.push32(0);
+                    // the comparison fails before the displacement is read.
                     self.save_loc(iseq, cond.loc);
+                    iseq.push32(0);
                 } else {
                     self.gen(globals, iseq, *rhs, true)?;
                     let inst = match op {
@@ -580,8 +581,9 @@ impl Codegen {
                         _ => unreachable!(),
                     };
                     iseq.push(inst);
-                    iseq.push32(0);
+                    // the comparison fails before the displacement is read.
                     self.save_loc(iseq, cond.loc);
+                    iseq.push32(0);
                 }
                 iseq.current()
             }
@@ -1173,7 +1175,6 @@ impl Codegen {
                                         };
                                     }
                                     NodeKind::Bignum(_)
-                                    | NodeKind::Float(_)
                                     | NodeKind::Symbol(_)
                                     | NodeKind::String(_)
                                     | NodeKind::Bool(_)
@@ -1188,7 +1189,12 @@ impl Codegen {
                                 break;
                             }
                         }
-                        if opt_flag && opt_flag2 {
+                        // A jump table is not worth it for sparse labels.
+                        let is_dense = match opt_max.checked_sub(opt_min) {
+                            Some(len) => len < 1024,
+                            None => false,
+                        };
+                        if opt_flag && opt_flag2 && is_dense {
                             //eprintln!("{} {}", opt_min, opt_max);
                             let map_id = globals.case_dispatch2.new_entry();
                             let start = iseq.gen_opt_case2(map_id);
@@ -1201,7 +1207,8 @@ impl Codegen {
                                         NodeKind::Integer(i) => *i,
                                         _ => unreachable!(),
                                     };
-                                    map.insert(i, disp);
+                                    // the first branch wins.
+                                    map.entry(i).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
@@ -1225,14 +1232,14 @@ impl Codegen {
                                     let k = match &elem.kind {
                                         NodeKind::Integer(i) => Value::integer(*i),
                                         NodeKind::Bignum(n) => Value::bignum(n.clone()),
-                                        NodeKind::Float(f) => Value::float(*f),
                                         NodeKind::Symbol(sym) => Value::symbol(*sym),
                                         NodeKind::String(str) => Value::string(str),
                                         NodeKind::Bool(b) => Value::bool(*b),
                                         NodeKind::Nil => Value::nil(),
                                         _ => unreachable!(),
                                     };
-                                    map.insert(HashKey(k), disp);
+                                    // the first branch wins.
+                                    map.entry(HashKey(k)).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 1bcabfe..d007c8e 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -576,6 +576,18 @@ impl Value {
         }
     }
 
+    /// Get the value which is looked up in a table of `when` labels instead of `self`.
+    /// An integer label matches an equal float too.
+    pub(crate) fn case_label(self) -> Self {
+        match self.as_float() {
+            Some(f) if f.fract() == 0.0 => match f.to_bigint() {
+                Some(i) => Value::bignum(i),
+                None => self,
+            },
+            _ => self,
+        }
+    }
+
     pub(crate) fn as_float(&self) -> Option<f64> {
         if let Some(f) = self.as_flonum() {
             Some(f)
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index dc0acc4..d1b3a67 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -460,7 +460,7 @@ impl VM {
                     Inst::JMP_F_LEI => jmp_cmp_i!(eval_lei),
 
                     Inst::OPT_CASE => {
-                        let val = self.stack_pop();
+                        let val = self.stack_pop().case_label();
                         let entry = self.pc.read32();
                         let map = self.globals.case_dispatch.get_entry(entry);
                         let default = self.pc.read_disp();
@@ -471,7 +471,7 @@ impl VM {
                         self.pc += disp;
                     }
                     Inst::OPT_CASE2 => {
-                        let val = self.stack_pop();
+                        let val = self.stack_pop().case_label();
                         let entry = self.pc.read32();
                         let default = self.pc.read_disp();
                         let disp = if let Some(i) = val.as_fixnum() {
-- 
2.43.0


From 18f96933b5bb7af841578a1ab996aff4f2f7dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 036/127] fix: Complex#== raised for objects that are not
 numbers

---
 ruruby/src/builtin/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index e7e04de..b005090 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -89,7 +89,7 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let (r1, i1) = self_val.to_complex().unwrap();
     let (r2, i2) = match vm[0].to_complex() {
         Some(t) => t,
-        None => return Err(RubyError::typeerr("Not a real.")),
+        None => return Ok(Value::bool(false)),
     };
     let b = r1 == r2 && i1 == i2;
     Ok(Value::bool(b))
-- 
2.43.0


From 818da4a716d775048d60a04b549aab8a31569655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 037/127] fix: arguments: missing keywords, too few or too many
 block arguments, splats of nil, hashes and ranges, keywords given to yield,
 super and send, super from several levels and with blocks, | after defaults

---
 ruruby-common/src/vm_inst.rs                |   8 +-
 ruruby-parse/src/parser.rs                  |  19 ++-
 ruruby-parse/src/parser/expression.rs       |  30 ++++-
 ruruby-parse/src/parser/literals.rs         |   1 +
 ruruby/src/builtin/object.rs                |   3 +-
 ruruby/src/codegen.rs                       |  51 ++++---
 ruruby/src/codegen/send.rs                  |  59 ++++++---
 ruruby/src/globals/method.rs                |  10 +-
 ruruby/src/value/class.rs                   |  16 +++
 ruruby/src/vm/executor.rs                   | 139 ++++++++------------
 ruruby/src/vm/executor/frame.rs             |   4 +-
 ruruby/src/vm/executor/frame/arg_handler.rs |  31 ++++-
 ruruby/src/vm/executor/opt_core.rs          | 114 +++++++++++++---
 13 files changed, 329 insertions(+), 156 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 11ca7db..0074629 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -337,12 +337,14 @@ impl Inst {
             | Inst::CREATE_PROC         // block: u32
             | Inst::DEF_SCLASS          // block: u32
             | Inst::CREATE_HASH         // number of items: u32
-            | Inst::YIELD               // number of items: u32
             | Inst::RESCUE              // number of items: u32
             => 5,
 
-            Inst::SUPER  => 8,
-            // number of args: u16 / block: u32 / flag: u8
+            Inst::YIELD => 6,
+            // number of items: u32 / flag: u8
+
+            Inst::SUPER  => 9,
+            // number of args: u16 / block: u32 / no_arg: u8 / flag: u8
 
             Inst::PUSH_VAL              // value: Value
             | Inst::SET_DYNLOCAL
diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 279765d..3ff0d9d 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -31,6 +31,8 @@ pub struct Parser<'a, OuterContext: LocalsContext> {
     suppress_mul_assign: bool,
     /// this flag suppress parse do-end style block.
     suppress_do_block: bool,
+    /// this flag suppress binary operator `|`. e.g. { |a = 1| }
+    suppress_bitor: bool,
 }
 
 impl<'a, A: LocalsContext> Parser<'a, A> {
@@ -74,6 +76,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
+            suppress_bitor: false,
         };
         let node = parser.parse_comp_stmt()?;
         let lvar = parser.context_stack.pop().unwrap().lvar;
@@ -472,6 +475,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Parse formal parameters.
     /// required, optional = defaule, *rest, post_required, kw: default, **rest_kw, &block
+    /// Parse a default expression of optional and keyword parameters.
+    /// If the parameter list is terminated by `|`, `|` is not an operator there.
+    fn parse_default_expr(&mut self, terminator: Option<Punct>) -> Result<Node, ParseErr> {
+        let old = self.suppress_bitor;
+        self.suppress_bitor = terminator == Some(Punct::BitOr);
+        let res = self.parse_arg();
+        self.suppress_bitor = old;
+        res
+    }
+
     fn parse_formal_params(
         &mut self,
         terminator: impl Into<Option<Punct>>,
@@ -551,7 +564,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let id = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
-                    let default = self.parse_arg()?;
+                    let default = self.parse_default_expr(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
                         Kind::Required => state = Kind::Optional,
@@ -575,10 +588,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_default_expr(terminator)?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_default_expr(terminator)?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 59695f5..1e56fc3 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -15,8 +15,11 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 return Ok(node);
             }
 
-            let node = self.parse_stmt()?;
-            nodes.push(node);
+            let old = self.suppress_bitor;
+            self.suppress_bitor = false;
+            let node = self.parse_stmt();
+            self.suppress_bitor = old;
+            nodes.push(node?);
             if !self.consume_term()? {
                 break;
             }
@@ -331,7 +334,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_arg_bitor(&mut self) -> Result<Node, ParseErr> {
         let mut lhs = self.parse_arg_bitand()?;
         loop {
-            if self.consume_punct_no_term(Punct::BitOr)? {
+            if !self.suppress_bitor && self.consume_punct_no_term(Punct::BitOr)? {
                 lhs = Node::new_binop(BinOp::BitOr, lhs, self.parse_arg_bitand()?);
             } else if self.consume_punct_no_term(Punct::BitXor)? {
                 lhs = Node::new_binop(BinOp::BitXor, lhs, self.parse_arg_bitand()?);
@@ -822,6 +825,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, ParseErr> {
         let punct = punct.into();
+        let old = self.suppress_bitor;
+        if punct.is_some() {
+            self.suppress_bitor = false;
+        }
+        let res = self.parse_arglist_inner(punct);
+        self.suppress_bitor = old;
+        res
+    }
+
+    fn parse_arglist_inner(&mut self, punct: Option<Punct>) -> Result<ArgList, ParseErr> {
         let mut arglist = ArgList::default();
         loop {
             if let Some(punct) = punct {
@@ -871,7 +884,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     NodeKind::Ident(id, ..) | NodeKind::LocalVar(id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
-                            arglist.kw_args.push((id, self.parse_arg()?));
+                            let val = self.parse_arg()?;
+                            if arglist.hash_splat.is_empty() {
+                                arglist.kw_args.push((id, val));
+                            } else {
+                                // A keyword after a double splat takes precedence over it.
+                                let key = Node::new_symbol(id, loc);
+                                arglist
+                                    .hash_splat
+                                    .push(Node::new_hash(vec![(key, val)], loc));
+                            }
                         } else {
                             // positional args
                             arglist.args.push(node);
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 6ff5696..87bf91b 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -317,6 +317,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
+            suppress_bitor: false,
         }
     }
 }
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 12781b4..115892b 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -208,7 +208,8 @@ fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let (mut src, mut len) = vm.args_range();
     src += 1;
     len -= 1;
-    let new_arg = Args2::new_with_block(len, args.block.clone());
+    let mut new_arg = Args2::new_with_block(len, args.block.clone());
+    new_arg.kw_arg = args.kw_arg;
     vm.eval_method_range(fid, self_val, src, len, &new_arg)
 }
 
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 71f89dc..f0f5a0f 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -164,7 +164,7 @@ impl Codegen {
 
         self.context_stack
             .push(Context::from(lvar_collector.table.clone(), kind));
-        for (lvar_id, param) in param_list.into_iter().enumerate() {
+        for param in param_list.into_iter() {
             match param.kind {
                 ParamKind::Param(id) => {
                     params.param_ident.push(id);
@@ -188,9 +188,13 @@ impl Codegen {
                 }
                 ParamKind::Keyword(id, default) => {
                     params.param_ident.push(id);
-                    params.keyword.insert(id, lvar_id.into());
-                    if let Some(default) = default {
-                        self.gen_default_expr(globals, &mut iseq, id, *default)?
+                    let lvar_id = lvar_collector.table.get_lvarid(id).unwrap();
+                    params.keyword.insert(id, lvar_id);
+                    match default {
+                        Some(default) => {
+                            self.gen_default_expr(globals, &mut iseq, id, *default)?
+                        }
+                        None => params.required_kw.push((id, lvar_id)),
                     }
                 }
                 ParamKind::KWRest(id) => {
@@ -1379,10 +1383,8 @@ impl Codegen {
             )?,
             NodeKind::Yield(arglist) => {
                 let len = arglist.args.len();
-                for arg in arglist.args {
-                    self.gen(globals, iseq, arg, true)?;
-                }
-                self.emit_yield(iseq, len);
+                let flag = self.gen_args(globals, iseq, arglist.args, arglist.kw_args, arglist.hash_splat)?;
+                self.emit_yield(iseq, len, flag);
                 if !use_value {
                     iseq.gen_pop();
                 };
@@ -1391,18 +1393,20 @@ impl Codegen {
                 iseq.gen_push_self();
                 match arglist {
                     None => {
-                        self.emit_super(iseq, 0, None, true);
+                        self.emit_super(iseq, 0, None, ArgFlag::default(), true);
                     }
                     Some(arglist) => {
                         let len = arglist.args.len();
-                        for arg in arglist.args {
-                            self.gen(globals, iseq, arg, true)?;
-                        }
-                        let (block, flag) = self.get_block(globals, iseq, arglist.block)?;
-                        if flag {
-                            unreachable!("Block param is not supported for super.")
-                        }
-                        self.emit_super(iseq, len, block, false);
+                        let flag = self.gen_args(globals, iseq, arglist.args, arglist.kw_args, arglist.hash_splat)?;
+                        let (block, block_flag) = self.get_block(globals, iseq, arglist.block)?;
+                        let flag = ArgFlag::new(
+                            flag.has_hash_arg(),
+                            block_flag,
+                            arglist.delegate,
+                            flag.has_hash_splat(),
+                            flag.has_splat(),
+                        );
+                        self.emit_super(iseq, len, block, flag, false);
                     }
                 }
 
@@ -1630,17 +1634,26 @@ impl Codegen {
         self.save_loc(iseq, loc);
     }
 
-    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize) {
+    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize, flag: ArgFlag) {
         iseq.push(Inst::YIELD);
         iseq.push32(args_num as u32);
+        iseq.push_argflag(flag);
         self.save_cur_loc(iseq);
     }
 
-    fn emit_super(&mut self, iseq: &mut ISeq, arg_num: usize, block: Option<FnId>, no_arg: bool) {
+    fn emit_super(
+        &mut self,
+        iseq: &mut ISeq,
+        arg_num: usize,
+        block: Option<FnId>,
+        flag: ArgFlag,
+        no_arg: bool,
+    ) {
         iseq.push(Inst::SUPER);
         iseq.push16(arg_num as u32 as u16);
         iseq.push_method(block);
         iseq.push8(if no_arg { 1 } else { 0 });
+        iseq.push_argflag(flag);
         self.save_cur_loc(iseq);
     }
 
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 34bf5eb..46ed6c6 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -33,26 +33,15 @@ impl Codegen {
         //let loc = self.loc;
         let delegate_flag = arglist.delegate;
         let hash_len = arglist.hash_splat.len();
-        // push positional args.
         let args_num = arglist.args.len();
-        let splat_flag = self.gen_nodes_check_splat(globals, iseq, arglist.args)?;
-        // push keyword args as a Hash.
-        let kw_args_len = arglist.kw_args.len();
-        let kw_flag = kw_args_len != 0;
-        if kw_flag {
-            for (id, default) in arglist.kw_args {
-                iseq.gen_val(Value::symbol(id));
-                self.gen(globals, iseq, default, true)?;
-            }
-            iseq.gen_create_hash(kw_args_len);
-        }
-        // push double splat args.
-        if hash_len > 0 {
-            for arg in arglist.hash_splat {
-                self.gen(globals, iseq, arg, true)?;
-            }
-            iseq.gen_create_array(hash_len);
-        }
+        let flag = self.gen_args(
+            globals,
+            iseq,
+            arglist.args,
+            arglist.kw_args,
+            arglist.hash_splat,
+        )?;
+        let (splat_flag, kw_flag) = (flag.has_splat(), flag.has_hash_arg());
         let (block_ref, block_flag) = self.get_block(globals, iseq, arglist.block)?;
         // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
         if !block_flag && !kw_flag && !splat_flag && hash_len == 0 && !delegate_flag {
@@ -78,6 +67,38 @@ impl Codegen {
         Ok(())
     }
 
+    /// Push positional, keyword and double splat args.
+    pub(crate) fn gen_args(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        args: Vec<Node>,
+        kw_args: Vec<(IdentId, Node)>,
+        hash_splat: Vec<Node>,
+    ) -> Result<ArgFlag, RubyError> {
+        // push positional args.
+        let splat_flag = self.gen_nodes_check_splat(globals, iseq, args)?;
+        // push keyword args as a Hash.
+        let kw_args_len = kw_args.len();
+        let kw_flag = kw_args_len != 0;
+        if kw_flag {
+            for (id, default) in kw_args {
+                iseq.gen_val(Value::symbol(id));
+                self.gen(globals, iseq, default, true)?;
+            }
+            iseq.gen_create_hash(kw_args_len);
+        }
+        // push double splat args.
+        let hash_len = hash_splat.len();
+        if hash_len > 0 {
+            for arg in hash_splat {
+                self.gen(globals, iseq, arg, true)?;
+            }
+            iseq.gen_create_array(hash_len);
+        }
+        Ok(ArgFlag::new(kw_flag, false, false, hash_len > 0, splat_flag))
+    }
+
     pub(crate) fn gen_send_with_splat(
         &mut self,
         globals: &mut Globals,
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 5260462..36ea683 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -395,6 +395,8 @@ pub struct ISeqParams {
     pub post: usize,
     pub block: bool,
     pub keyword: FxHashMap<IdentId, LvarId>,
+    /// Keyword parameters without default values.
+    pub required_kw: Vec<(IdentId, LvarId)>,
     pub kwrest: bool,
     /// A flag for argument delegation. e.g. f(...)
     pub delegate: Option<LvarId>,
@@ -411,6 +413,10 @@ impl ISeqParams {
             && self.delegate.is_none()
     }
 
+    pub(crate) fn accepts_keywords(&self) -> bool {
+        self.kwrest || !self.keyword.is_empty()
+    }
+
     pub(crate) fn check_arity(&self, additional_kw: bool, args: &Args2) -> Result<(), RubyError> {
         let min = self.req + self.post;
         let kw = if additional_kw { 1 } else { 0 };
@@ -520,7 +526,8 @@ impl ISeqInfo {
     ) -> Self {
         let lvars = lvar.len();
         let opt_flag = params.is_opt();
-        let mularg_flag = 1 < params.req + params.post;
+        let mularg_flag = 1 < params.req + params.post + params.opt
+            || (0 < params.req + params.post && params.rest.is_some());
         ISeqInfo {
             method,
             params,
@@ -556,6 +563,7 @@ impl ISeqInfo {
                 post: 0,
                 block: false,
                 keyword: FxHashMap::default(),
+                required_kw: vec![],
                 kwrest: false,
                 delegate: None,
             },
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 7ed55b9..0f14d08 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -211,6 +211,22 @@ impl Module {
         }
     }
 
+    /// Search the method which is called by `super` in the method `fid` named `name`, for a receiver which class is `self`.
+    pub(crate) fn search_super_method(&self, fid: FnId, name: IdentId) -> Option<FnId> {
+        let mut class = *self;
+        let mut found = false;
+        loop {
+            if found {
+                if let Some(method) = class.get_instance_method(name) {
+                    return Some(method);
+                }
+            } else {
+                found = class.ext.method_table.values().any(|id| *id == fid);
+            }
+            class = class.upper()?;
+        }
+    }
+
     pub(crate) fn search_method_no_inherit(&self, method: IdentId) -> Option<FnId> {
         self.get_instance_method(method)
     }
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index fe244f6..cdcf72c 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -860,99 +860,74 @@ impl VM {
         hash
     }
 
-    /// Pop values and store them in new `Args`. `args_num` specifies the number of values to be popped.
-    /// If there is some Array or Range with splat operator, break up the value and store each of them.
-    fn pop_args_to_args(&mut self, arg_num: usize) -> Args2 {
+    /// Elements which a splat of `val` stands for.
+    fn splat_to_vec(&mut self, val: Value) -> Result<Vec<Value>, RubyError> {
+        if let Some(ary) = val.as_array() {
+            return Ok(ary.to_vec());
+        }
+        if val.is_nil() {
+            return Ok(vec![]);
+        }
+        if val.as_range().is_none()
+            && self
+                .globals
+                .find_method_from_receiver(val, IdentId::get_id("to_a"))
+                .is_none()
+        {
+            if let Some(hash) = val.as_hash() {
+                return Ok(hash
+                    .iter()
+                    .map(|(k, v)| Value::array_from(vec![k, v]))
+                    .collect());
+            }
+            return Ok(vec![val]);
+        }
+        let res = self.eval_send0(IdentId::get_id("to_a"), val)?;
+        match res.as_array() {
+            Some(ary) => {
+                self.temp_push(res);
+                Ok(ary.to_vec())
+            }
+            None if res.is_nil() => Ok(vec![val]),
+            None => Err(RubyError::typeerr(format!(
+                "Can't convert {} to Array.",
+                val.get_class_name()
+            ))),
+        }
+    }
+
+    /// Treat the topmost `arg_num` values as arguments: values with splat operator are broken up in place.
+    fn pop_args_to_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
         let arg_start = self.stack.sp - arg_num;
         let mut p = arg_start;
         while p < self.stack.sp {
             let prev_sp = self.stack.sp;
-            let val = p[0];
-            match val.as_splat() {
-                Some(inner) => match inner.as_rvalue() {
-                    None => {
-                        p[0] = inner;
-                        p += 1;
+            match p[0].as_splat() {
+                Some(inner) => {
+                    let a = self.splat_to_vec(inner)?;
+                    let ary_len = a.len();
+                    if ary_len == 0 {
+                        self.stack.remove(p);
+                    } else {
+                        self.stack.grow(ary_len - 1);
+                        RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
+                        p[0..ary_len].copy_from_slice(&a[..]);
+                        p += ary_len;
                     }
-                    Some(obj) => match obj.kind() {
-                        ObjKind::ARRAY => {
-                            let a = &**obj.array();
-                            let ary_len = a.len();
-                            if ary_len == 0 {
-                                self.stack.remove(p);
-                            } else {
-                                self.stack.grow(ary_len - 1);
-                                RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
-                                p[0..ary_len].copy_from_slice(&a[..]);
-                                p += ary_len;
-                            }
-                        }
-                        // TODO: should use `to_a` method.
-                        ObjKind::RANGE => {
-                            let r = &*obj.range();
-                            let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
-                            let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
-                                + if r.exclude { 0 } else { 1 };
-                            if end >= start {
-                                let ary_len = (end - start) as usize;
-                                self.stack.grow(ary_len - 1);
-                                RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
-                                for (idx, val) in (start..end).enumerate() {
-                                    p[idx as isize] = Value::integer(val);
-                                }
-                                p += ary_len;
-                            } else {
-                                self.stack.remove(p);
-                            };
-                        }
-                        _ => {
-                            p[0] = inner;
-                            p += 1;
-                        }
-                    },
-                },
+                }
                 None => p += 1,
             };
         }
         let len = (self.stack.sp - arg_start) as usize;
-        Args2::new(len)
+        Ok(Args2::new(len))
     }
 
-    fn pop_args_to_array(&mut self, arg_num: usize) -> Value {
-        let v = Value::array_empty();
-        let mut ary = v.as_array().unwrap();
-        let end = self.stack.sp;
-        let mut p = end - arg_num;
-        self.stack.sp = p;
-        while p < end {
-            let val = p[0];
-            match val.as_splat() {
-                Some(inner) => match inner.as_rvalue() {
-                    None => ary.push(inner),
-                    Some(obj) => match obj.kind() {
-                        ObjKind::ARRAY => ary.extend_from_slice(&**obj.array()),
-                        // TODO: should use `to_a` method.
-                        ObjKind::RANGE => {
-                            let r = &*obj.range();
-                            let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
-                            let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
-                                + if r.exclude { 0 } else { 1 };
-                            if end >= start {
-                                for val in start..end {
-                                    ary.push(Value::integer(val));
-                                }
-                            }
-                        }
-                        _ => ary.push(inner),
-                    },
-                },
-                None => {
-                    ary.push(val);
-                }
-            };
-            p += 1;
-        }
-        v
+    fn pop_args_to_array(&mut self, arg_num: usize) -> VMResult {
+        let args = self.pop_args_to_args(arg_num)?;
+        let start = self.stack.sp - args.len();
+        let ary = start[0..args.len()].to_vec();
+        self.stack.sp = start;
+        Ok(Value::array_from(ary))
     }
 
     pub(crate) fn create_range(&mut self, start: Value, end: Value, exclude_end: bool) -> VMResult {
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 42c60a4..bc39fc0 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -433,13 +433,13 @@ impl VM {
     }
 
     /// Get current method frame.
-    fn cur_mfp(&self) -> EnvFrame {
+    pub(super) fn cur_mfp(&self) -> EnvFrame {
         self.cfp.ep().mfp()
     }
 
     pub(super) fn cur_delegate(&self) -> Option<Value> {
         let lvar_id = self.cur_mfp().iseq().params.delegate?;
-        let delegate = self.lfp[lvar_id];
+        let delegate = self.cur_mfp().get_lfp()[lvar_id];
         if delegate.is_nil() {
             None
         } else {
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index e5c8532..cf87506 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -34,9 +34,20 @@ impl VM {
         };
 
         self.prepare_block_args(base, iseq);
+        // Superfluous arguments are dropped, missing ones are nil.
+        let min = params.req + params.post;
+        let max = min + params.opt;
+        let len = (self.sp() - base) as usize;
+        if len < min {
+            self.stack.resize_to(base + min);
+            let mut p = base;
+            p[len..min].fill(Value::nil());
+        } else if max < len && params.rest.is_none() && params.delegate.is_none() {
+            self.stack.sp = base + max;
+        }
         self.fill_positional_arguments(base, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || !params.keyword.is_empty() {
             self.fill_keyword_arguments(base, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base) as usize;
@@ -88,7 +99,7 @@ impl VM {
         params.check_arity(positional_kwarg, args)?;
         self.fill_positional_arguments(base_ptr, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || !params.keyword.is_empty() {
             self.fill_keyword_arguments(base_ptr, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base_ptr) as usize;
@@ -112,6 +123,10 @@ impl VM {
         let outer = outer.ep();
         let base = self.sp() - args.len();
         let lvars = iseq.lvars;
+        if !args.kw_arg.is_nil() {
+            // Keyword arguments are treated as a positional Hash argument.
+            self.stack_push(args.kw_arg);
+        }
         self.prepare_block_args(base, iseq);
         let args_len = (self.sp() - base) as usize;
         let req_len = iseq.params.req;
@@ -140,7 +155,12 @@ impl VM {
         use_value: bool,
     ) -> InvokeResult {
         let min = iseq.params.req;
-        let len = args.len();
+        let mut len = args.len();
+        if !args.kw_arg.is_nil() {
+            // Keyword arguments are treated as a positional Hash argument.
+            self.stack_push(args.kw_arg);
+            len += 1;
+        }
         if len != min {
             return Err(RubyError::argument_wrong(len, min));
         }
@@ -238,6 +258,11 @@ impl VM {
                 };
             }
         };
+        for (id, lvar) in &iseq.params.required_kw {
+            if base[lvar.as_usize() as isize].is_uninitialized() {
+                return Err(RubyError::argument(format!("Missing keyword: {:?}", id)));
+            }
+        }
         if let Some(id) = iseq.lvar.kwrest_param() {
             base[id.as_usize() as isize] = Value::hash_from_map(kwrest);
         }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index d1b3a67..57927e1 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -406,7 +406,7 @@ impl VM {
                     }
                     Inst::CREATE_ARRAY => {
                         let arg_num = self.pc.read_usize();
-                        let array = self.pop_args_to_array(arg_num);
+                        let array = self.pop_args_to_array(arg_num)?;
                         self.stack_push(array);
                     }
                     Inst::CREATE_PROC => {
@@ -498,15 +498,21 @@ impl VM {
                     Inst::OPT_SEND_N => dispatch!(self.vm_fast_send(false), false),
                     Inst::YIELD => {
                         let args_num = self.pc.read32() as usize;
-                        let args = self.pop_args_to_args(args_num);
+                        let flag = self.pc.read_argflag();
+                        let keyword = self.handle_hash_args(flag)?;
+                        let mut args = self.pop_args_to_args(args_num)?;
+                        args.kw_arg = keyword;
                         dispatch!(self.vm_yield(&args), true);
                     }
                     Inst::SUPER => {
                         let args_num = self.pc.read16() as usize;
-                        let _block = self.pc.read_method();
-                        let flag = self.pc.read8() == 1;
-                        //let self_value = self.self_value();
-                        dispatch!(self.vm_super(self_val, args_num, flag), true);
+                        let block = self.pc.read32();
+                        let no_arg = self.pc.read8() == 1;
+                        let flag = self.pc.read_argflag();
+                        dispatch!(
+                            self.vm_super(self_val, args_num, block, flag, no_arg),
+                            true
+                        );
                     }
                     Inst::DEF_CLASS => {
                         let is_module = self.pc.read8() == 1;
@@ -633,6 +639,10 @@ impl VM {
                     }
                 }
             }
+            if hash.len() == 0 {
+                // Empty double splats pass nothing.
+                return Ok(Value::nil());
+            }
             Ok(kw)
         }
     }
@@ -716,7 +726,7 @@ impl VM {
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
         let mut args = if flag.has_splat() {
-            self.pop_args_to_args(args_num)
+            self.pop_args_to_args(args_num)?
         } else {
             Args2::new(args_num)
         };
@@ -755,38 +765,104 @@ impl VM {
         &mut self,
         self_value: Value,
         args_num: usize,
-        delegate_flag: bool,
+        block: u32,
+        flag: ArgFlag,
+        no_arg: bool,
     ) -> InvokeResult {
-        // TODO: support keyword parameter, etc..
         let iseq = self.get_method_iseq();
         if let ISeqKind::Method(Some(m_id)) = iseq.kind {
+            let block = match self.handle_block_arg(block, flag)? {
+                Some(block) => Some(block),
+                // The block of the current method is passed unless another one is given.
+                None if !flag.has_block_arg() => self.get_method_block(),
+                None => None,
+            };
+            let mut keyword = self.handle_hash_args(flag)?;
             let class = self.globals.get_class_for_method(self_value);
             let method = class
-                .superclass()
-                .map(|class| self.globals.methods.find_method(class, m_id))
-                .flatten()
+                .search_super_method(iseq.method, m_id)
                 .ok_or_else(|| {
                     RubyError::nomethod(format!(
                         "no superclass method `{:?}' for {:?}.",
                         m_id, self_value
                     ))
                 })?;
-            let args = if delegate_flag {
+            let mut args = if no_arg {
                 // When `super` has no arguments, use arguments which were passed to the current method.
-                let param_num = iseq.params.param_ident.len();
-                for i in 0..param_num as isize {
-                    self.stack_push(self.lfp[i]);
-                }
-                Args2::new(args_num + param_num)
+                self.push_current_args()
             } else {
-                self.pop_args_to_args(args_num)
+                let mut args = self.pop_args_to_args(args_num)?;
+                if flag.has_delegate() {
+                    if let Some(v) = self.cur_delegate() {
+                        let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
+                        args.append(ary);
+                        self.stack.extend_from_slice(ary);
+                    }
+                }
+                if let MethodInfo::RubyFunc { iseq } = &self.globals.methods[method] {
+                    // Keyword arguments are dropped if the method can not take them.
+                    if !iseq.params.accepts_keywords()
+                        && iseq.params.check_arity(true, &args).is_err()
+                    {
+                        keyword = Value::nil();
+                    }
+                }
+                args.kw_arg = keyword;
+                args
             };
+            args.block = block;
             self.invoke_method(method, &args, true)
         } else {
             Err(RubyError::nomethod("super called outside of method"))
         }
     }
 
+    /// Push the current values of the parameters of the current method in the form of arguments.
+    fn push_current_args(&mut self) -> Args2 {
+        let mfp = self.cur_mfp();
+        let iseq = mfp.iseq();
+        let params = &iseq.params;
+        let lfp = mfp.get_lfp();
+        let start = self.sp();
+        let mut idx = params.req + params.opt;
+        for i in 0..idx as isize {
+            self.stack_push(lfp[i]);
+        }
+        if let Some(delegate) = params.delegate {
+            if let Some(ary) = lfp[delegate].as_array() {
+                self.stack.extend_from_slice(&**ary);
+            }
+        }
+        if params.rest == Some(true) {
+            match lfp[idx as isize].as_array() {
+                Some(ary) => self.stack.extend_from_slice(&**ary),
+                None => self.stack_push(lfp[idx as isize]),
+            }
+            idx += 1;
+        }
+        for i in idx..idx + params.post {
+            self.stack_push(lfp[i as isize]);
+        }
+        let mut args = Args2::new((self.sp() - start) as usize);
+        let mut map = FxIndexMap::default();
+        for id in &params.param_ident {
+            if let Some(lvar) = params.keyword.get(id) {
+                map.insert(HashKey(Value::symbol(*id)), lfp[*lvar]);
+            }
+        }
+        if let Some(id) = iseq.lvar.kwrest_param() {
+            if let Some(hash) = lfp[id].as_hash() {
+                for (k, v) in hash.iter() {
+                    map.insert(HashKey(k), v);
+                }
+            }
+        }
+        if !map.is_empty() {
+            args.kw_arg = Value::hash_from_map(map);
+        }
+        args
+    }
+
     /// Invoke the block given to the method with `args`.
     fn vm_yield(&mut self, args: &Args2) -> InvokeResult {
         match &self.get_method_block() {
-- 
2.43.0


From 5eb8e2dac31cca0cd314d2889c3cb7be6af2050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 038/127] fix: keywords that are not symbols panicked

---
 ruruby/src/vm/executor/frame/arg_handler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index cf87506..82b274d 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -245,8 +245,8 @@ impl VM {
         if ordinary_kwarg {
             let keyword = kw_arg.as_hash().unwrap();
             for (k, v) in keyword.iter() {
-                let id = k.as_symbol().unwrap();
-                match iseq.params.keyword.get(&id) {
+                let lvar = k.as_symbol().and_then(|id| iseq.params.keyword.get(&id));
+                match lvar {
                     Some(lvar) => base[lvar.as_usize() as isize] = v,
                     None => {
                         if iseq.params.kwrest {
-- 
2.43.0


From f6db0f1c904ee828d8c40ee09bd35537cb6e7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 039/127] fix: comparison operators returned true or false
 instead of what the method returned, and != ignored a method of that name

---
 ruruby/src/builtin/object.rs       | 13 ++++
 ruruby/src/vm/executor/ops.rs      | 99 ++++++++++++++++++++++++++++--
 ruruby/src/vm/executor/opt_core.rs | 36 +++++------
 3 files changed, 125 insertions(+), 23 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 115892b..1d95956 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -12,6 +12,8 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "inspect", inspect);
     object.add_builtin_method_by_str(globals, "equal?", equal);
     object.add_builtin_method_by_str(globals, "==", eq);
+    object.add_builtin_method_by_str(globals, "!=", ne);
+    object.add_builtin_method_by_str(globals, "!", not);
     object.add_builtin_method_by_str(globals, "===", teq);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
@@ -190,6 +192,17 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(b))
 }
 
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(!b))
+}
+
+fn not(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(Value::bool(!self_val.to_bool()))
+}
+
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let b = vm.eval_eq2(vm[0], self_val)?;
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index d131d85..4bb2641 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -286,6 +286,38 @@ macro_rules! eval_cmp2 {
     }};
 }
 
+/// The value of a comparison is what the method returned.
+macro_rules! invoke_cmp {
+    ($func_name:ident, $op:ident, $id:ident) => {
+        pub(super) fn $func_name(&mut self) -> InvokeResult {
+            let (lhs, rhs) = self.stack_pop2();
+            let b = match (lhs.as_fixnum(), lhs.as_flonum(), rhs.as_fixnum(), rhs.as_flonum()) {
+                (Some(lhs), _, Some(rhs), _) => lhs.$op(&rhs),
+                (Some(lhs), _, _, Some(rhs)) => (lhs as f64).$op(&rhs),
+                (_, Some(lhs), Some(rhs), _) => lhs.$op(&(rhs as f64)),
+                (_, Some(lhs), _, Some(rhs)) => lhs.$op(&rhs),
+                _ => return self.invoke_send1(IdentId::$id, lhs, rhs),
+            };
+            Ok(VMResKind::Return(Value::bool(b)))
+        }
+    };
+}
+
+macro_rules! invoke_cmp_i {
+    ($func_name:ident, $op:ident, $id:ident) => {
+        pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> InvokeResult {
+            let b = if let Some(lhs) = lhs.as_fixnum() {
+                lhs.$op(&(i as i64))
+            } else if let Some(lhs) = lhs.as_flonum() {
+                lhs.$op(&(i as f64))
+            } else {
+                return self.invoke_send1(IdentId::$id, lhs, Value::fixnum(i as i64));
+            };
+            Ok(VMResKind::Return(Value::bool(b)))
+        }
+    };
+}
+
 macro_rules! eval_cmp_i {
     ($func_name:ident, $op:ident, $id:ident) => {
         pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
@@ -306,8 +338,13 @@ macro_rules! eval_cmp_i {
 impl VM {
     pub(super) fn invoke_teq(&mut self) -> InvokeResult {
         let (lhs, rhs) = self.stack_pop2();
-        let b = self.eval_teq(rhs, lhs)?;
-        Ok(VMResKind::Return(Value::bool(b)))
+        match lhs.as_rvalue().map(|oref| oref.kind()) {
+            Some(ObjKind::ORDINARY | ObjKind::PROC) => self.invoke_send1(IdentId::_TEQ, lhs, rhs),
+            _ => {
+                let b = self.eval_teq(rhs, lhs)?;
+                Ok(VMResKind::Return(Value::bool(b)))
+            }
+        }
     }
 
     fn teq_regexp(&mut self, oref: &RValue, rhs: Value) -> Result<bool, RubyError> {
@@ -461,9 +498,34 @@ impl VM {
     }
 
     pub(super) fn eval_ne(&mut self) -> Result<bool, RubyError> {
-        Ok(!self.eval_eq()?)
+        let (lhs, rhs) = self.stack_pop2();
+        match self.eval_eq_builtin(rhs, lhs)? {
+            Some(b) => Ok(!b),
+            None => Ok(self.eval_send1(IdentId::_NEQ, lhs, rhs)?.to_bool()),
+        }
+    }
+
+    pub(super) fn invoke_eq(&mut self) -> InvokeResult {
+        let (lhs, rhs) = self.stack_pop2();
+        match self.eval_eq_builtin(rhs, lhs)? {
+            Some(b) => Ok(VMResKind::Return(Value::bool(b))),
+            None => self.invoke_send1(IdentId::_EQ, lhs, rhs),
+        }
     }
 
+    pub(super) fn invoke_ne(&mut self) -> InvokeResult {
+        let (lhs, rhs) = self.stack_pop2();
+        match self.eval_eq_builtin(rhs, lhs)? {
+            Some(b) => Ok(VMResKind::Return(Value::bool(!b))),
+            None => self.invoke_send1(IdentId::_NEQ, lhs, rhs),
+        }
+    }
+
+    invoke_cmp!(invoke_ge, ge, _GE);
+    invoke_cmp!(invoke_gt, gt, _GT);
+    invoke_cmp!(invoke_le, le, _LE);
+    invoke_cmp!(invoke_lt, lt, _LT);
+
     eval_cmp!(eval_ge, ge, _GE);
     eval_cmp!(eval_gt, gt, _GT);
     eval_cmp!(eval_le, le, _LE);
@@ -492,9 +554,38 @@ impl VM {
         Ok(res)
     }
     pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
-        Ok(!self.eval_eqi(lhs, i)?)
+        match lhs.unpack() {
+            RV::Integer(_) | RV::Float(_) => Ok(!self.eval_eqi(lhs, i)?),
+            _ => {
+                let v = self.eval_send1(IdentId::_NEQ, lhs, Value::integer(i as i64))?;
+                Ok(v.to_bool())
+            }
+        }
+    }
+
+    pub(super) fn invoke_eqi(&mut self, lhs: Value, i: i32) -> InvokeResult {
+        match lhs.unpack() {
+            RV::Integer(_) | RV::Float(_) => {
+                Ok(VMResKind::Return(Value::bool(self.eval_eqi(lhs, i)?)))
+            }
+            _ => self.invoke_send1(IdentId::_EQ, lhs, Value::integer(i as i64)),
+        }
     }
 
+    pub(super) fn invoke_nei(&mut self, lhs: Value, i: i32) -> InvokeResult {
+        match lhs.unpack() {
+            RV::Integer(_) | RV::Float(_) => {
+                Ok(VMResKind::Return(Value::bool(!self.eval_eqi(lhs, i)?)))
+            }
+            _ => self.invoke_send1(IdentId::_NEQ, lhs, Value::integer(i as i64)),
+        }
+    }
+
+    invoke_cmp_i!(invoke_gei, ge, _GE);
+    invoke_cmp_i!(invoke_gti, gt, _GT);
+    invoke_cmp_i!(invoke_lei, le, _LE);
+    invoke_cmp_i!(invoke_lti, lt, _LT);
+
     eval_cmp_i!(eval_gei, ge, _GE);
     eval_cmp_i!(eval_gti, gt, _GT);
     eval_cmp_i!(eval_lei, le, _LE);
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 57927e1..d473b1f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -59,19 +59,17 @@ impl VM {
 
             #[cfg(not(tarpaulin_include))]
             macro_rules! cmp {
-                ($eval:ident) => {{
-                    let val = Value::bool(self.$eval()?);
-                    self.stack_push(val);
-                }};
+                ($invoke:ident) => {
+                    dispatch!(self.$invoke(), true)
+                };
             }
 
             #[cfg(not(tarpaulin_include))]
             macro_rules! cmp_i {
-                ($eval:ident) => {{
+                ($invoke:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let v = Value::bool(self.$eval(lhs, i)?);
-                    self.stack_push(v);
+                    dispatch!(self.$invoke(lhs, i), true)
                 }};
             }
 
@@ -192,19 +190,19 @@ impl VM {
                     Inst::BXOR => dispatch!(self.invoke_bitxor(), true),
                     Inst::BNOT => dispatch!(self.invoke_bitnot(), true),
 
-                    Inst::EQ => cmp!(eval_eq),
-                    Inst::NE => cmp!(eval_ne),
-                    Inst::GT => cmp!(eval_gt),
-                    Inst::GE => cmp!(eval_ge),
-                    Inst::LT => cmp!(eval_lt),
-                    Inst::LE => cmp!(eval_le),
+                    Inst::EQ => cmp!(invoke_eq),
+                    Inst::NE => cmp!(invoke_ne),
+                    Inst::GT => cmp!(invoke_gt),
+                    Inst::GE => cmp!(invoke_ge),
+                    Inst::LT => cmp!(invoke_lt),
+                    Inst::LE => cmp!(invoke_le),
                     Inst::TEQ => dispatch!(self.invoke_teq(), true),
-                    Inst::EQI => cmp_i!(eval_eqi),
-                    Inst::NEI => cmp_i!(eval_nei),
-                    Inst::GTI => cmp_i!(eval_gti),
-                    Inst::GEI => cmp_i!(eval_gei),
-                    Inst::LTI => cmp_i!(eval_lti),
-                    Inst::LEI => cmp_i!(eval_lei),
+                    Inst::EQI => cmp_i!(invoke_eqi),
+                    Inst::NEI => cmp_i!(invoke_nei),
+                    Inst::GTI => cmp_i!(invoke_gti),
+                    Inst::GEI => cmp_i!(invoke_gei),
+                    Inst::LTI => cmp_i!(invoke_lti),
+                    Inst::LEI => cmp_i!(invoke_lei),
                     Inst::CMP => {
                         let (lhs, rhs) = self.stack_pop2();
                         dispatch!(self.invoke_compare(rhs, lhs), true)
-- 
2.43.0


From 7185ef1b297cea51b699754d1663b890ad9fea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:38 +0000
Subject: [PATCH 040/127] fix: compound assignment evaluated receivers and
 indexes twice, ||= of undefined constants and class variables raised, **= was
 not read; safe navigation with arguments; value of attribute assignment;
 order of multiple assignment

---
 ruruby-common/src/vm_inst.rs          |   3 +
 ruruby-parse/src/parser/expression.rs |  25 +-
 ruruby-parse/src/parser/lexer.rs      |   3 +
 ruruby/src/codegen.rs                 | 323 +++++++++++++++++++++-----
 ruruby/src/codegen/defined.rs         |   6 +
 ruruby/src/codegen/send.rs            |  24 +-
 ruruby/src/globals.rs                 |   1 +
 ruruby/src/vm/executor/opt_core.rs    |   5 +
 8 files changed, 305 insertions(+), 85 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 0074629..2a3d7bc 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -42,6 +42,7 @@ impl Inst {
     pub const CHECK_IVAR: u8 = 53;
     pub const CHECK_GVAR: u8 = 54;
     pub const CHECK_METHOD: u8 = 55;
+    pub const CHECK_CVAR: u8 = 56;
 
     pub const SEND: u8 = 60;
     pub const OPT_SEND: u8 = 66;
@@ -203,6 +204,7 @@ impl Inst {
             Inst::CHECK_IVAR => "CHECK_IVAR",
             Inst::CHECK_GVAR => "CHECK_GVAR",
             Inst::CHECK_METHOD => "CHECK_METHOD",
+            Inst::CHECK_CVAR => "CHECK_CVAR",
 
             Inst::SEND => "SEND",
             Inst::OPT_SEND => "O_SEND",
@@ -292,6 +294,7 @@ impl Inst {
             | Inst::CHECK_CONST         // IdentId: u32
             | Inst::CHECK_SCOPE         // IdentId: u32
             | Inst::CHECK_METHOD        // IdentId: u32
+            | Inst::CHECK_CVAR          // IdentId: u32
             | Inst::GET_CONST_TOP       // IdentId: u32
             | Inst::GET_SCOPE           // IdentId: u32
             | Inst::GET_IVAR            // IdentId: u32
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 1e56fc3..7629b57 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -456,25 +456,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Parse assign-op.
     /// <lhs> <assign_op> <arg>
     fn parse_assign_op(&mut self, mut lhs: Node, op: BinOp) -> Result<Node, ParseErr> {
-        match op {
-            BinOp::LOr | BinOp::LAnd => {
-                self.get()?;
-                let rhs = self.parse_arg()?;
-                self.check_lhs(&lhs)?;
-                if let NodeKind::Ident(id) = lhs.kind {
-                    lhs = Node::new_lvar(id, lhs.loc());
-                };
-                let node =
-                    Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
-                Ok(node)
-            }
-            _ => {
-                self.get()?;
-                let rhs = self.parse_arg()?;
-                self.check_lhs(&lhs)?;
-                Ok(Node::new_assign_op(op, lhs, rhs))
+        self.get()?;
+        let rhs = self.parse_arg()?;
+        self.check_lhs(&lhs)?;
+        match (op, &lhs.kind) {
+            (BinOp::LOr | BinOp::LAnd, NodeKind::Ident(id)) => {
+                lhs = Node::new_lvar(*id, lhs.loc());
             }
+            _ => {}
         }
+        Ok(Node::new_assign_op(op, lhs, rhs))
     }
 
     fn parse_exponent(&mut self) -> Result<Node, ParseErr> {
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index c22d1c7..a338a82 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -263,6 +263,9 @@ impl<'a> Lexer<'a> {
                         if self.consume('=') {
                             return Ok(self.new_punct(Punct::AssignOp(BinOp::Mul)));
                         } else if self.consume('*') {
+                            if self.consume('=') {
+                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Exp)));
+                            }
                             return Ok(self.new_punct(Punct::DMul));
                         } else {
                             return Ok(self.new_punct(Punct::Mul));
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index f0f5a0f..b37e5cb 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -356,6 +356,24 @@ impl Codegen {
         Ok(())
     }
 
+    /// Assign values on the stack to `mlhs` from left to right.
+    fn gen_mul_assign(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        mlhs: Vec<Node>,
+    ) -> Result<(), RubyError> {
+        let mut rest = mlhs.len();
+        for lhs in mlhs {
+            rest -= 1;
+            if rest != 0 {
+                iseq.gen_topn(rest);
+            }
+            self.gen_assign(globals, iseq, lhs)?;
+        }
+        Ok(())
+    }
+
     fn gen_assign_val(
         &mut self,
         globals: &mut Globals,
@@ -411,12 +429,29 @@ impl Codegen {
                 iseq.gen_set_const(id);
             }
             NodeKind::Send {
-                receiver, method, ..
+                receiver,
+                method,
+                safe_nav,
+                ..
             } => {
                 let assign_id = IdentId::get_id_from_string(format!("{:?}=", method));
                 self.gen(globals, iseq, *receiver, true)?;
-                self.gen(globals, iseq, rhs, true)?;
-                self.emit_opt_send(globals, iseq, assign_id, 1, None, use_value, lhs_loc);
+                let nav = if safe_nav {
+                    Some(self.gen_jmp_if_nil(iseq))
+                } else {
+                    None
+                };
+                self.gen_assign_val(globals, iseq, rhs, use_value || safe_nav)?;
+                if use_value || safe_nav {
+                    iseq.gen_sinkn(2);
+                }
+                self.emit_opt_send(globals, iseq, assign_id, 1, None, false, lhs_loc);
+                if let Some(nav) = nav {
+                    iseq.write_disp_from_cur(nav);
+                    if !use_value {
+                        iseq.gen_pop();
+                    }
+                }
             }
             NodeKind::Index { base, index } => {
                 self.gen(globals, iseq, *base, true)?;
@@ -469,6 +504,224 @@ impl Codegen {
         Ok(())
     }
 
+    /// Generate code of a binary operation whose left-hand side is on the stack.
+    fn gen_binop_rhs(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        rhs: Node,
+        loc: Loc,
+    ) -> Result<(), RubyError> {
+        let (inst, inst_i) = match op {
+            BinOp::Add => (Inst::ADD, Some(Inst::ADDI)),
+            BinOp::Sub => (Inst::SUB, Some(Inst::SUBI)),
+            BinOp::Mul => (Inst::MUL, None),
+            BinOp::Div => (Inst::DIV, None),
+            BinOp::Exp => (Inst::POW, None),
+            BinOp::Rem => (Inst::REM, None),
+            BinOp::Shr => (Inst::SHR, None),
+            BinOp::Shl => (Inst::SHL, None),
+            BinOp::BitOr => (Inst::BOR, None),
+            BinOp::BitAnd => (Inst::BAND, None),
+            BinOp::BitXor => (Inst::BXOR, None),
+            BinOp::Eq => (Inst::EQ, Some(Inst::EQI)),
+            BinOp::Ne => (Inst::NE, Some(Inst::NEI)),
+            BinOp::TEq => (Inst::TEQ, None),
+            BinOp::Ge => (Inst::GE, Some(Inst::GEI)),
+            BinOp::Gt => (Inst::GT, Some(Inst::GTI)),
+            BinOp::Le => (Inst::LE, Some(Inst::LEI)),
+            BinOp::Lt => (Inst::LT, Some(Inst::LTI)),
+            BinOp::Cmp => (Inst::CMP, None),
+            BinOp::Match | BinOp::LAnd | BinOp::LOr => unreachable!(),
+        };
+        match (inst_i, rhs.is_imm_i32()) {
+            (Some(inst_i), Some(i)) => {
+                iseq.push(inst_i);
+                iseq.push32(i as u32);
+            }
+            _ => {
+                self.gen(globals, iseq, rhs, true)?;
+                iseq.push(inst);
+            }
+        }
+        self.save_loc(iseq, loc);
+        Ok(())
+    }
+
+    /// Generate code for `lhs op= rhs`.
+    /// The receiver and the indexes of `lhs` are evaluated only once.
+    fn gen_assign_op(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        lhs: Node,
+        rhs: Node,
+        use_value: bool,
+    ) -> Result<(), RubyError> {
+        let loc = lhs.loc();
+        // Push receiver and indexes, and duplicate them for the reference.
+        let (len, has_splat, imm, method, nav) = match lhs.kind {
+            NodeKind::Send {
+                receiver,
+                method,
+                safe_nav,
+                ..
+            } => {
+                self.gen(globals, iseq, *receiver, true)?;
+                let nav = if safe_nav {
+                    Some(self.gen_jmp_if_nil(iseq))
+                } else {
+                    None
+                };
+                iseq.gen_dup(1);
+                self.emit_opt_send(globals, iseq, method, 0, None, true, loc);
+                (1, false, None, Some(method), nav)
+            }
+            NodeKind::Index { base, index } => {
+                self.gen(globals, iseq, *base, true)?;
+                let imm = match &index[..] {
+                    [index] => index.is_imm_u32(),
+                    _ => None,
+                };
+                if let Some(u) = imm {
+                    iseq.gen_dup(1);
+                    iseq.push(Inst::GET_IDX_I);
+                    iseq.push32(u);
+                    self.save_loc(iseq, loc);
+                    (1, false, imm, None, None)
+                } else {
+                    let len = index.len();
+                    let has_splat = self.gen_nodes_check_splat(globals, iseq, index)?;
+                    iseq.gen_dup(len + 1);
+                    if len == 1 && !has_splat {
+                        self.emit_get_array_elem(iseq, loc);
+                    } else {
+                        self.gen_send_with_splat(
+                            globals,
+                            iseq,
+                            IdentId::_INDEX,
+                            len,
+                            has_splat,
+                            true,
+                            loc,
+                        );
+                    }
+                    (len + 1, has_splat, None, None, None)
+                }
+            }
+            _ => {
+                match op {
+                    BinOp::LAnd | BinOp::LOr => {
+                        let mut undef = vec![];
+                        match lhs.kind {
+                            NodeKind::Const { .. } | NodeKind::ClassVar(_) if op == BinOp::LOr => {
+                                self.check_defined(globals, &lhs, iseq, &mut undef, &mut vec![])?
+                            }
+                            _ => {}
+                        }
+                        self.gen(globals, iseq, lhs.clone(), true)?;
+                        if use_value {
+                            iseq.gen_dup(1);
+                        }
+                        let end = if op == BinOp::LAnd {
+                            iseq.gen_jmp_if_f()
+                        } else {
+                            iseq.gen_jmp_if_t()
+                        };
+                        if use_value {
+                            iseq.gen_pop();
+                        }
+                        for src in undef {
+                            iseq.write_disp_from_cur(src);
+                        }
+                        self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
+                        iseq.write_disp_from_cur(end);
+                    }
+                    _ => {
+                        let rhs = Node::new_binop(op, lhs.clone(), rhs);
+                        self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
+                    }
+                }
+                return Ok(());
+            }
+        };
+        // Calculate a new value.
+        let skip = match op {
+            BinOp::LAnd | BinOp::LOr => {
+                iseq.gen_dup(1);
+                let skip = if op == BinOp::LAnd {
+                    iseq.gen_jmp_if_f()
+                } else {
+                    iseq.gen_jmp_if_t()
+                };
+                iseq.gen_pop();
+                self.gen(globals, iseq, rhs, true)?;
+                Some(skip)
+            }
+            _ => {
+                self.gen_binop_rhs(globals, iseq, op, rhs, loc)?;
+                None
+            }
+        };
+        // Assign it.
+        let use_value_or_nav = use_value || nav.is_some();
+        if use_value_or_nav {
+            iseq.gen_dup(1);
+            iseq.gen_sinkn(len + 1);
+        }
+        match (method, imm) {
+            (Some(method), _) => {
+                let assign_id = IdentId::get_id_from_string(format!("{:?}=", method));
+                self.emit_opt_send(globals, iseq, assign_id, 1, None, false, loc);
+            }
+            (_, Some(u)) => {
+                iseq.push(Inst::SET_IDX_I);
+                iseq.push32(u);
+                self.save_loc(iseq, loc);
+            }
+            _ if len == 2 && !has_splat => {
+                iseq.gen_set_array_elem();
+                self.save_loc(iseq, loc);
+            }
+            _ => {
+                let id = IdentId::_INDEX_ASSIGN;
+                self.gen_send_with_splat(globals, iseq, id, len, has_splat, false, loc);
+            }
+        }
+        if let Some(skip) = skip {
+            let end = iseq.gen_jmp();
+            iseq.write_disp_from_cur(skip);
+            if use_value_or_nav {
+                iseq.gen_sinkn(len);
+            } else {
+                iseq.gen_pop();
+            }
+            for _ in 0..len {
+                iseq.gen_pop();
+            }
+            iseq.write_disp_from_cur(end);
+        }
+        if let Some(nav) = nav {
+            iseq.write_disp_from_cur(nav);
+            if !use_value {
+                iseq.gen_pop();
+            }
+        }
+        Ok(())
+    }
+
+    /// Jump if the top of the stack is nil, which remains there.
+    fn gen_jmp_if_nil(&mut self, iseq: &mut ISeq) -> ISeqPos {
+        iseq.gen_dup(1);
+        iseq.gen_push_nil();
+        // nil is compared with the object because `==` of the object may be redefined.
+        iseq.gen_sinkn(1);
+        iseq.push(Inst::EQ);
+        iseq.gen_jmp_if_t()
+    }
+
     fn gen_comp_stmt(
         &mut self,
         globals: &mut Globals,
@@ -819,41 +1072,7 @@ impl Codegen {
             }
             NodeKind::BinOp(op, lhs, rhs) => {
                 let loc = self.loc;
-                macro_rules! binop {
-                    ($inst:expr) => {{
-                        self.gen(globals, iseq, *lhs, true)?;
-                        self.gen(globals, iseq, *rhs, true)?;
-                        iseq.push($inst);
-                        self.save_loc(iseq, loc);
-                    }};
-                }
-                macro_rules! binop_imm {
-                    ($inst:expr, $inst_i:expr) => {
-                        if let Some(i) = rhs.is_imm_i32() {
-                            self.gen(globals, iseq, *lhs, true)?;
-                            iseq.push($inst_i);
-                            iseq.push32(i as u32);
-                            self.save_loc(iseq, loc);
-                        } else {
-                            binop!($inst);
-                        }
-                    };
-                }
                 match op {
-                    BinOp::Add => binop_imm!(Inst::ADD, Inst::ADDI),
-                    BinOp::Sub => binop_imm!(Inst::SUB, Inst::SUBI),
-                    BinOp::Mul => binop!(Inst::MUL),
-                    BinOp::Div => binop!(Inst::DIV),
-                    BinOp::Exp => binop!(Inst::POW),
-                    BinOp::Rem => binop!(Inst::REM),
-                    BinOp::Shr => binop!(Inst::SHR),
-                    BinOp::Shl => binop!(Inst::SHL),
-                    BinOp::BitOr => binop!(Inst::BOR),
-                    BinOp::BitAnd => binop!(Inst::BAND),
-                    BinOp::BitXor => binop!(Inst::BXOR),
-                    BinOp::Eq => binop_imm!(Inst::EQ, Inst::EQI),
-                    BinOp::Ne => binop_imm!(Inst::NE, Inst::NEI),
-                    BinOp::TEq => binop!(Inst::TEQ),
                     BinOp::Match => {
                         let method = IdentId::get_id("=~");
                         self.gen(globals, iseq, *lhs, true)?;
@@ -861,11 +1080,6 @@ impl Codegen {
                         self.emit_opt_send(globals, iseq, method, 1, None, use_value, loc);
                         return Ok(());
                     }
-                    BinOp::Ge => binop_imm!(Inst::GE, Inst::GEI),
-                    BinOp::Gt => binop_imm!(Inst::GT, Inst::GTI),
-                    BinOp::Le => binop_imm!(Inst::LE, Inst::LEI),
-                    BinOp::Lt => binop_imm!(Inst::LT, Inst::LTI),
-                    BinOp::Cmp => binop!(Inst::CMP),
                     BinOp::LAnd => {
                         self.gen(globals, iseq, *lhs, true)?;
                         if use_value {
@@ -892,17 +1106,18 @@ impl Codegen {
                         iseq.write_disp_from_cur(src);
                         return Ok(());
                     }
+                    _ => {
+                        self.gen(globals, iseq, *lhs, true)?;
+                        self.gen_binop_rhs(globals, iseq, op, *rhs, loc)?;
+                    }
                 }
                 if !use_value {
                     iseq.gen_pop()
                 };
             }
-            NodeKind::AssignOp(op, box lhs, box rhs) => match (&op, &lhs.kind, &rhs.kind) {
-                _ => {
-                    let rhs = Node::new_binop(op, lhs.clone(), rhs);
-                    self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
-                }
-            },
+            NodeKind::AssignOp(op, box lhs, box rhs) => {
+                self.gen_assign_op(globals, iseq, op, lhs, rhs, use_value)?
+            }
             NodeKind::UnOp(op, lhs) => {
                 self.gen(globals, iseq, *lhs, true)?;
                 match op {
@@ -1323,9 +1538,7 @@ impl Codegen {
                     };
                     iseq.gen_take(lhs_len);
 
-                    for lhs in mlhs.into_iter().rev() {
-                        self.gen_assign(globals, iseq, lhs)?;
-                    }
+                    self.gen_mul_assign(globals, iseq, mlhs)?;
                 } else {
                     // no splat. mlhs.len != 1
                     let mrhs_len = mrhs.len();
@@ -1338,9 +1551,7 @@ impl Codegen {
                                 iseq.gen_push_nil();
                             }
                         }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
+                        self.gen_mul_assign(globals, iseq, mlhs)?;
                     } else {
                         let len = std::cmp::max(mlhs.len(), mrhs.len());
                         for rhs in mrhs {
@@ -1353,9 +1564,7 @@ impl Codegen {
                         for _ in mlhs.len()..len {
                             iseq.gen_pop();
                         }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
+                        self.gen_mul_assign(globals, iseq, mlhs)?;
                         iseq.gen_create_array(len);
                     }
                 }
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index fcc50ee..701d718 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -67,6 +67,12 @@ impl Codegen {
                 nil_labels.push(iseq.gen_jmp_if_t());
                 Ok(())
             }
+            NodeKind::ClassVar(id) => {
+                iseq.push(Inst::CHECK_CVAR);
+                iseq.push32((*id).into());
+                nil_labels.push(iseq.gen_jmp_if_t());
+                Ok(())
+            }
             NodeKind::InstanceVar(id) => {
                 iseq.push(Inst::CHECK_IVAR);
                 iseq.push32((*id).into());
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 46ed6c6..dcaa9a3 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -30,7 +30,11 @@ impl Codegen {
         } else {
             self.gen(globals, iseq, receiver.clone(), true)?;
         }
-        //let loc = self.loc;
+        let nav = if safe_nav {
+            Some(self.gen_jmp_if_nil(iseq))
+        } else {
+            None
+        };
         let delegate_flag = arglist.delegate;
         let hash_len = arglist.hash_splat.len();
         let args_num = arglist.args.len();
@@ -45,20 +49,18 @@ impl Codegen {
         let (block_ref, block_flag) = self.get_block(globals, iseq, arglist.block)?;
         // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
         if !block_flag && !kw_flag && !splat_flag && hash_len == 0 && !delegate_flag {
-            if safe_nav {
-                iseq.gen_dup(1);
-                iseq.gen_push_nil();
-                iseq.push(Inst::NE);
-                let src = iseq.gen_jmp_if_f();
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-                iseq.write_disp_from_cur(src);
-            } else {
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-            }
+            let use_value = use_value || safe_nav;
+            self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
         } else {
             let flag = ArgFlag::new(kw_flag, block_flag, delegate_flag, hash_len > 0, splat_flag);
             self.emit_send(globals, iseq, method, args_num, flag, block_ref, loc);
 
+            if !use_value && !safe_nav {
+                iseq.gen_pop()
+            };
+        }
+        if let Some(nav) = nav {
+            iseq.write_disp_from_cur(nav);
             if !use_value {
                 iseq.gen_pop()
             };
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 27e13a7..77dbab9 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -396,6 +396,7 @@ impl Globals {
             | Inst::SET_CONST
             | Inst::CHECK_CONST
             | Inst::CHECK_METHOD
+            | Inst::CHECK_CVAR
             | Inst::GET_SCOPE
             | Inst::GET_IVAR
             | Inst::SET_IVAR
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index d473b1f..2f818fa 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -348,6 +348,11 @@ impl VM {
                         let val = Value::bool(self.get_global_var(var_id).is_none());
                         self.stack_push(val);
                     }
+                    Inst::CHECK_CVAR => {
+                        let var_id = self.pc.read_id();
+                        let val = Value::bool(self.get_class_var(var_id).is_err());
+                        self.stack_push(val);
+                    }
                     Inst::GET_SVAR => {
                         let var_id = self.pc.read32();
                         let val = self.get_special_var(var_id);
-- 
2.43.0


From dcf83a318cd5cdae840abb922f33f15bf54b0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 041/127] fix: [], []= and << defined by subclasses of Array
 and Hash were ignored, new of a subclass of Hash gave a plain Hash

---
 ruruby/src/builtin/hash.rs    |  6 +++---
 ruruby/src/vm/executor/ops.rs | 28 +++++++++++++++-------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 28f4fee..5a918db 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -43,10 +43,10 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 // Class methods
 
-fn hash_new(_: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn hash_new(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let map = FxIndexMap::default();
-    let hash = Value::hash_from_map(map);
+    let mut hash = Value::hash_from_map(FxIndexMap::default());
+    hash.rvalue_mut().set_class(self_val.into_module());
     Ok(hash)
 }
 
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 4bb2641..8c2e00a 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -170,11 +170,13 @@ impl VM {
                 return Ok(VMResKind::Return(val));
             }
         }
-        if let Some(mut ainfo) = lhs.as_array() {
-            ainfo.push(rhs);
-            Ok(VMResKind::Return(lhs))
-        } else {
-            self.invoke_send1(IdentId::_SHL, lhs, rhs)
+        match lhs.as_array() {
+            // A subclass or a singleton class may redefine the method.
+            Some(mut ainfo) if lhs.rvalue().class() == BuiltinClass::array() => {
+                ainfo.push(rhs);
+                Ok(VMResKind::Return(lhs))
+            }
+            _ => self.invoke_send1(IdentId::_SHL, lhs, rhs),
         }
     }
 
@@ -613,11 +615,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if oref.class() == BuiltinClass::array() => {
                         oref.array_mut().set_elem1(idx, val)?;
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if oref.class() == BuiltinClass::hash() => {
                         oref.rhash_mut().store(idx, val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -635,11 +637,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if oref.class() == BuiltinClass::array() => {
                         oref.array_mut().set_elem_imm(idx as usize, val);
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if oref.class() == BuiltinClass::hash() => {
                         oref.rhash_mut().insert(Value::fixnum(idx as i64), val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -660,11 +662,11 @@ impl VM {
     pub(super) fn invoke_get_index(&mut self, receiver: Value, idx: Value) -> InvokeResult {
         if let Some(oref) = receiver.as_rvalue() {
             match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if oref.class() == BuiltinClass::array() => {
                     let val = oref.array().get_elem1(idx)?;
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if oref.class() == BuiltinClass::hash() => {
                     let val = oref.rhash().get(&idx).cloned().unwrap_or_default();
                     return Ok(VMResKind::Return(val));
                 }
@@ -677,11 +679,11 @@ impl VM {
     pub(super) fn invoke_get_index_imm(&mut self, receiver: Value, idx: u32) -> InvokeResult {
         match receiver.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if oref.class() == BuiltinClass::array() => {
                     let val = oref.array().get_elem_imm(idx as usize);
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if oref.class() == BuiltinClass::hash() => {
                     let val = oref
                         .rhash()
                         .get(&Value::fixnum(idx as i64))
-- 
2.43.0


From 33f76cbee126007034839a2c1fb246f236ad56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 042/127] fix: a method missing in another object than self
 raised NameError instead of NoMethodError

---
 ruruby/src/builtin/basicobject.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/basicobject.rs b/ruruby/src/builtin/basicobject.rs
index b7b1d32..e92cc35 100644
--- a/ruruby/src/builtin/basicobject.rs
+++ b/ruruby/src/builtin/basicobject.rs
@@ -50,7 +50,7 @@ fn method_missing(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             )))
         }
     };
-    if self_val.id() == vm.self_value().id() {
+    if args.len() == 1 && self_val.id() == vm.caller_cfp().self_value().id() {
         Err(RubyError::name(format!(
             "Undefined method `{:?}' for {:?}:{}",
             method_id,
-- 
2.43.0


From db42b2410fdf1e5ada549318c8252c011f56e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 043/127] fix: Hash had no methods [] and []=, comparing a
 Complex by order panicked

---
 ruruby/src/builtin/complex.rs |  7 +++++++
 ruruby/src/builtin/hash.rs    | 15 +++++++++++++++
 ruruby/src/builtin/numeric.rs | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index b005090..060f041 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -8,6 +8,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "*", mul);
     class.add_builtin_method_by_str(globals, "/", div);
     class.add_builtin_method_by_str(globals, "==", eq);
+    class.add_builtin_method_by_str(globals, "!=", ne);
     class.add_builtin_method_by_str(globals, "abs2", abs2);
     class.add_builtin_method_by_str(globals, "abs", abs);
     class.add_builtin_method_by_str(globals, "rect", rect);
@@ -84,6 +85,12 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::complex(r.into_val(), i.into_val()))
 }
 
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(!b))
+}
+
 fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let (r1, i1) = self_val.to_complex().unwrap();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 5a918db..8115db3 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -32,6 +32,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "each", each);
     class.add_builtin_method_by_str(globals, "each_pair", each);
     class.add_builtin_method_by_str(globals, "merge", merge);
+    class.add_builtin_method_by_str(globals, "[]", get_elem);
+    class.add_builtin_method_by_str(globals, "[]=", set_elem);
     class.add_builtin_method_by_str(globals, "fetch", fetch);
     class.add_builtin_method_by_str(globals, "compare_by_identity", compare_by_identity);
     class.add_builtin_method_by_str(globals, "sort", sort);
@@ -236,6 +238,19 @@ fn merge(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     Ok(Value::hash_from(new))
 }
 
+fn get_elem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let hash = self_val.as_hash().unwrap();
+    Ok(hash.get(&vm[0]).cloned().unwrap_or_default())
+}
+
+fn set_elem(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(2)?;
+    let (key, val) = (vm[0], vm[1]);
+    self_val.as_mut_hash().unwrap().store(key, val);
+    Ok(val)
+}
+
 fn fetch(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let key = vm[0];
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index 7939a76..cda6019 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -121,11 +121,14 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 macro_rules! define_cmp {
-    ($op:ident) => {
+    ($op:ident, $id:ident) => {
         fn $op(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             args.check_args_num(1)?;
             let arg0 = vm[0];
-            let lhs = self_val.to_real().unwrap();
+            let lhs = match self_val.to_real() {
+                Some(lhs) => lhs,
+                None => return Err(VMError::undefined_method(IdentId::$id, self_val)),
+            };
             match arg0.to_real() {
                 Some(rhs) => return Ok(Value::bool(lhs.$op(&rhs))),
                 _ => {
@@ -140,12 +143,12 @@ macro_rules! define_cmp {
     };
 }
 
-define_cmp!(ge);
-define_cmp!(gt);
-define_cmp!(le);
-define_cmp!(lt);
-define_cmp!(eq);
-define_cmp!(ne);
+define_cmp!(ge, _GE);
+define_cmp!(gt, _GT);
+define_cmp!(le, _LE);
+define_cmp!(lt, _LT);
+define_cmp!(eq, _EQ);
+define_cmp!(ne, _NEQ);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 8dd93e4a6d9a51a569b6a17031e58676530b6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:39 +0000
Subject: [PATCH 044/127] fix: a float modulo something that is no number
 panicked; Regexp had no method ===

---
 ruruby/src/arith.rs          | 2 +-
 ruruby/src/builtin/regexp.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index 7d1276b..bd575ba 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -69,7 +69,7 @@ pub(crate) fn rem_float(lhsf: f64, rhs: Value) -> VMResult {
         }
         Value::float(rem_floorf64(lhsf, rhs.to_f64().unwrap()))
     } else {
-        unreachable!()
+        return Err(VMError::cant_coerse(rhs, "Float"));
     };
     Ok(val)
 }
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 415ab87..fe0fc6f 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -447,6 +447,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_class_method(globals, "quote", regexp_escape);
     class.add_builtin_class_method(globals, "last_match", regexp_last_match);
     class.add_builtin_method_by_str(globals, "=~", regexp_match);
+    class.add_builtin_method_by_str(globals, "===", regexp_teq);
     class.into()
 }
 
@@ -492,6 +493,12 @@ fn regexp_last_match(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 }
 
 // Instance methods
+fn regexp_teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_teq(vm[0], self_val)?;
+    Ok(Value::bool(b))
+}
+
 fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut args0 = vm[0];
-- 
2.43.0


From 2f10e50e885940bb3af3e8ee729e8080eb6adb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 045/127] fix: the value of a multiple assignment was padded
 with nils

---
 ruruby/src/codegen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index b37e5cb..0139338 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1565,7 +1565,11 @@ impl Codegen {
                             iseq.gen_pop();
                         }
                         self.gen_mul_assign(globals, iseq, mlhs)?;
-                        iseq.gen_create_array(len);
+                        // The value is the right-hand side without the nils that fill it up.
+                        for _ in mrhs_len..len {
+                            iseq.gen_pop();
+                        }
+                        iseq.gen_create_array(mrhs_len);
                     }
                 }
             }
-- 
2.43.0


From f5493bcb4405a32d0a05b56afa39b9a8e0200229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:17 +0000
Subject: [PATCH 046/127] fix: case without a subject required all conditions
 of a when instead of any

---
 ruruby/src/codegen.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 0139338..01ec5e2 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1506,19 +1506,21 @@ impl Codegen {
                     }
                     None => {
                         for branch in when_ {
-                            let mut next = vec![];
+                            // The branch is taken if any of its conditions is truthy.
+                            let mut jmp_dest = vec![];
                             for elem in branch.when {
                                 let loc = elem.loc;
                                 self.gen(globals, iseq, elem, true)?;
                                 self.save_loc(iseq, loc);
-                                next.push(iseq.gen_jmp_if_f());
+                                jmp_dest.push(iseq.gen_jmp_if_t());
                             }
-                            //next = Some(iseq.gen_jmp());
-                            self.gen(globals, iseq, *branch.body, use_value)?;
-                            end.push(iseq.gen_jmp());
-                            for dest in next {
+                            let next = iseq.gen_jmp();
+                            for dest in jmp_dest {
                                 iseq.write_disp_from_cur(dest);
                             }
+                            self.gen(globals, iseq, *branch.body, use_value)?;
+                            end.push(iseq.gen_jmp());
+                            iseq.write_disp_from_cur(next);
                         }
                         self.gen(globals, iseq, *else_, use_value)?;
                         for dest in end {
-- 
2.43.0


From c90b7e28a663d931e0315d749fc1b10209347073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 047/127] fix: prepended modules were skipped for direct
 instances; objects with a singleton class answered methods of Class

---
 ruruby/src/value/class.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 0f14d08..95a9794 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -130,9 +130,20 @@ impl Module {
         self
     }
 
+    /// Get the first module of the ancestors of `self`.
+    ///
+    /// This is `self` unless some module is prepended to `self`.
+    pub(crate) fn top(&self) -> Module {
+        if self.has_prepend() {
+            self.upper().unwrap()
+        } else {
+            *self
+        }
+    }
+
     /// Check whether `target_module` exists in the ancestors of `self`.
     pub(crate) fn include_module(&self, target_module: Module) -> bool {
-        let mut module = *self;
+        let mut module = self.top();
         loop {
             let true_module = module.real_module();
             if true_module.id() == target_module.id() {
@@ -189,31 +200,18 @@ impl Module {
     /// Get method for a receiver which class is `self` and `method` (IdentId) without using method cache.
     /// Returns `FnId` and its owner `Module`.
     pub(crate) fn search_method(&self, method: IdentId) -> Option<DefinedMethod> {
-        let mut class = *self;
-        let mut singleton_flag = self.is_singleton();
+        let mut class = self.top();
         loop {
-            match class.get_instance_method(method) {
-                Some(method) => {
-                    return Some(DefinedMethod::new(method, class));
-                }
-                None => match class.upper() {
-                    Some(superclass) => class = superclass,
-                    None => {
-                        if singleton_flag {
-                            singleton_flag = false;
-                            class = self.class();
-                        } else {
-                            return None;
-                        }
-                    }
-                },
-            };
+            if let Some(method) = class.get_instance_method(method) {
+                return Some(DefinedMethod::new(method, class));
+            }
+            class = class.upper()?;
         }
     }
 
     /// Search the method which is called by `super` in the method `fid` named `name`, for a receiver which class is `self`.
     pub(crate) fn search_super_method(&self, fid: FnId, name: IdentId) -> Option<FnId> {
-        let mut class = *self;
+        let mut class = self.top();
         let mut found = false;
         loop {
             if found {
-- 
2.43.0


From 2e89f051e66992c7b7910d75801b2fdbe855d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 048/127] fix: a module was included again though it was an
 ancestor already, included modules came before prepended ones, and a cyclic
 include never ended

---
 ruruby/src/builtin/module.rs    |  13 +--
 ruruby/src/builtin/object.rs    |   2 +-
 ruruby/src/globals/constants.rs |   5 ++
 ruruby/src/value/class.rs       | 146 +++++++++++++++++++++++++-------
 4 files changed, 130 insertions(+), 36 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 5179616..bbf7a50 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -245,6 +245,7 @@ pub(crate) fn instance_methods(vm: &mut VM, self_val: Value, args: &Args2) -> VM
         }
         true => {
             let mut v = FxIndexSet::default();
+            module = module.top();
             loop {
                 for k in module.method_names() {
                     v.insert(*k);
@@ -375,7 +376,7 @@ fn include(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         let module = arg.expect_module("arg")?;
         self_val
             .into_module()
-            .append_include(&mut vm.globals, module);
+            .append_include(&mut vm.globals, module)?;
     }
     Ok(self_val)
 }
@@ -388,20 +389,22 @@ fn prepend(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         let module = arg.expect_module("arg")?;
         self_val
             .into_module()
-            .append_prepend(&mut vm.globals, self_mod, module);
+            .append_prepend(&mut vm.globals, self_mod, module)?;
     }
     Ok(self_val)
 }
 
 fn included_modules(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
+    let self_mod = self_val.into_module();
+    let mut module = Some(self_mod.top());
     let mut ary = vec![];
     loop {
         match module {
             None => break,
             Some(m) => {
-                if m.is_included() {
+                // The origin of a class which has prepended modules is not a module.
+                if m.is_included() && m.is_module() && m.id() != self_mod.id() {
                     ary.push(m.origin().unwrap().into())
                 };
                 module = m.upper();
@@ -413,7 +416,7 @@ fn included_modules(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn ancestors(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
+    let mut module = Some(self_val.into_module().top());
     let mut ary = vec![];
     loop {
         match module {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 1d95956..6ffa530 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -86,7 +86,7 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     let mut singleton = self_val.get_singleton_class()?;
     for arg in vm.args().to_owned() {
         let module = arg.expect_module("arg")?;
-        singleton.append_include(&mut vm.globals, module);
+        singleton.append_include(&mut vm.globals, module)?;
     }
     Ok(self_val)
 }
diff --git a/ruruby/src/globals/constants.rs b/ruruby/src/globals/constants.rs
index 70e8e3d..12b28ca 100644
--- a/ruruby/src/globals/constants.rs
+++ b/ruruby/src/globals/constants.rs
@@ -26,6 +26,11 @@ impl Globals {
         self.const_version += 1;
     }
 
+    /// Invalidate all of inline constant caches.
+    pub(crate) fn inc_const_version(&mut self) {
+        self.const_version += 1;
+    }
+
     /// Search inline constant cache for `slot`.
     ///
     /// Return None if not found.
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 95a9794..e532cfb 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -490,55 +490,141 @@ impl ClassInfo {
         self.ext.origin = Some(origin);
     }
 
-    pub(crate) fn append_include(&mut self, globals: &mut Globals, module: Module) {
+    pub(crate) fn append_include(
+        &mut self,
+        globals: &mut Globals,
+        module: Module,
+    ) -> Result<(), RubyError> {
+        if self.is_cyclic(module) {
+            return Err(RubyError::argument("Cyclic include detected."));
+        }
         self.append_include_without_increment_version(module);
         globals.methods.inc_class_version();
+        globals.inc_const_version();
+        Ok(())
     }
 
-    pub(crate) fn append_include_without_increment_version(&mut self, mut module: Module) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
+    pub(crate) fn append_include_without_increment_version(&mut self, module: Module) {
+        let mut included = vec![];
+        // Modules are inserted above `self`, or above its origin if some modules are prepended to `self`.
+        let mut last = None;
+        if self.has_prepend() {
+            let mut m = self.upper;
+            while let Some(module) = m {
+                last = m;
+                if module.is_same(self) {
+                    break;
+                }
+                m = module.upper;
+            }
+        }
+        let base = last;
+        let mut m = Some(module.top());
+        while let Some(module) = m {
+            included.push(module);
+            m = module.upper();
+        }
+        for module in included {
+            // Search for the module in the ancestors above the origin.
+            let mut superclass_seen = false;
+            let mut found = None;
+            let mut m = match base {
+                Some(base) => base.upper,
+                None => self.upper,
             };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
+            while let Some(upper) = m {
+                if upper.is_same(&module) {
+                    found = m;
+                    break;
+                } else if !upper.is_module() {
+                    superclass_seen = true;
+                }
+                m = upper.upper;
+            }
+            match found {
+                Some(_) if superclass_seen => {}
+                Some(_) => last = found,
+                None => last = Some(self.insert_included(last, module)),
+            }
+        }
+    }
+
+    /// Insert a copy of `module` above `last`, or directly above `self` if `last` is None.
+    fn insert_included(&mut self, last: Option<Module>, module: Module) -> Module {
+        let mut imodule = module.generate_included();
+        match last {
+            Some(mut last) => {
+                imodule.upper = last.upper;
+                last.upper = Some(imodule);
+            }
+            None => {
+                imodule.upper = self.upper;
+                self.upper = Some(imodule);
+            }
         }
-        imodule.upper = superclass;
+        imodule
+    }
+
+    /// Check whether `self` is one of the ancestors of `module`.
+    fn is_cyclic(&self, module: Module) -> bool {
+        let mut m = Some(module.top());
+        while let Some(module) = m {
+            if module.is_same(self) {
+                return true;
+            }
+            m = module.upper();
+        }
+        false
+    }
+
+    /// Check whether `self` and `other` are the same class or module, or copies of it.
+    fn is_same(&self, other: &ClassInfo) -> bool {
+        self.id() == other.id()
     }
 
     pub(crate) fn append_prepend(
         &mut self,
         globals: &mut Globals,
         base: Module,
-        mut module: Module,
-    ) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
-            };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
+        module: Module,
+    ) -> Result<(), RubyError> {
+        if self.is_cyclic(module) {
+            return Err(RubyError::argument("Cyclic prepend detected."));
         }
         if !self.has_prepend() {
             let mut dummy = base.dup();
-            dummy.upper = superclass;
             dummy.set_include(base);
-            imodule.upper = Some(dummy);
+            self.upper = Some(dummy);
             self.set_prepend();
-        } else {
-            imodule.upper = superclass;
+        }
+        let mut prepended = vec![];
+        let mut m = Some(module.top());
+        while let Some(module) = m {
+            prepended.push(module);
+            m = module.upper();
+        }
+        let mut last = None;
+        for module in prepended {
+            // Search for the module among the modules which are already prepended.
+            let mut found = None;
+            let mut m = self.upper;
+            while let Some(upper) = m {
+                if upper.is_same(self) {
+                    break;
+                } else if upper.is_same(&module) {
+                    found = m;
+                    break;
+                }
+                m = upper.upper;
+            }
+            last = match found {
+                Some(_) => found,
+                None => Some(self.insert_included(last, module)),
+            };
         }
         globals.methods.inc_class_version();
+        globals.inc_const_version();
+        Ok(())
     }
 
     #[inline(always)]
-- 
2.43.0


From d38a6cd23db7c1e9bd0a43b10aa6def5d9153a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:01 +0000
Subject: [PATCH 049/127] fix: a method cache entry outlived its class, so a
 new class at the same address ran methods of the old one; is_a?, === and
 rescue ignored modules of singleton classes

---
 ruruby/src/alloc.rs          |  8 ++++++--
 ruruby/src/builtin/kernel.rs |  3 +++
 ruruby/src/builtin/module.rs |  2 +-
 ruruby/src/globals.rs        | 13 +++---------
 ruruby/src/vm/executor.rs    | 40 ++++++++++++++----------------------
 5 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index 587f583..9a679a9 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -201,18 +201,22 @@ impl<T: GCBox> Allocator<T> {
         self.print_mark();
     }
 
+    /// Execute GC if it is needed.
+    ///
+    /// Return true if GC was executed.
     #[inline(always)]
-    pub fn check_gc(&mut self, root: &impl GCRoot<T>) {
+    pub fn check_gc(&mut self, root: &impl GCRoot<T>) -> bool {
         let malloced = MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst);
         #[cfg(not(feature = "gc-stress"))]
         {
             if !self.is_allocated() && !(self.malloc_threshold < malloced) {
-                return;
+                return false;
             }
         }
         #[cfg(feature = "gc-debug")]
         dbg!(malloced);
         self.gc(root);
+        true
     }
 
     pub fn gc(&mut self, root: &impl GCRoot<T>) {
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 203b975..d526393 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -190,6 +190,9 @@ fn block_given(vm: &mut VM, _: Value, _args: &Args2) -> VMResult {
 
 fn isa(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
+    if vm[0].if_mod_class().is_none() {
+        return Err(RubyError::typeerr("Class or module required."));
+    }
     Ok(Value::bool(vm.globals.kind_of(self_val, vm[0])))
 }
 
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index bbf7a50..d57de23 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -80,7 +80,7 @@ fn module_constants(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Module/i/=3d=3d=3d.html
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let class = vm.globals.get_class(vm[0]);
+    let class = vm.globals.get_class_for_method(vm[0]);
     let self_val = self_val.into_module();
     Ok(Value::bool(class.include_module(self_val)))
 }
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 77dbab9..422fd2f 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -189,17 +189,10 @@ impl Globals {
     }
 
     pub(crate) fn kind_of(&self, val: Value, class: Value) -> bool {
-        let mut val = self.get_class(val);
-        loop {
-            if val.id() == class.id() {
-                return true;
-            }
-            val = match val.upper() {
-                Some(val) => val,
-                None => break,
-            };
+        match class.if_mod_class() {
+            Some(class) => self.get_class_for_method(val).include_module(class),
+            None => false,
         }
-        false
     }
 
     pub(crate) fn add_source_file(&mut self, file_path: &Path) -> Option<usize> {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index cdcf72c..a70a6e4 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -365,12 +365,16 @@ impl VM {
                 return;
             }
         }
-        ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals));
+        // Method caches are invalidated because a new class can be allocated at the address of a reclaimed one.
+        if ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals)) {
+            self.globals.methods.inc_class_version();
+        }
     }
 
     #[inline(always)]
     pub fn gc(&mut self) {
         ALLOC.with(|m| m.borrow_mut().gc(&*self.globals));
+        self.globals.methods.inc_class_version();
     }
 
     #[inline]
@@ -656,33 +660,19 @@ impl VM {
 
 impl VM {
     fn eval_rescue(&self, val: Value, exceptions: &[Value]) -> bool {
-        let mut module = if val.is_class() {
+        let module = if val.is_class() {
             Module::new(val)
         } else {
-            self.globals.get_class(val)
+            self.globals.get_class_for_method(val)
         };
-        loop {
-            if !module.is_module()
-                && exceptions.iter().any(|x| {
-                    if let Some(ary) = x.as_splat() {
-                        ary.as_array()
-                            .unwrap()
-                            .iter()
-                            .any(|elem| elem.id() == module.id())
-                    } else {
-                        x.id() == module.id()
-                    }
-                })
-            {
-                return true;
-            };
-
-            match module.upper() {
-                Some(upper) => module = upper,
-                None => break,
-            }
-        }
-        false
+        let is_kind_of = |x: &Value| match x.if_mod_class() {
+            Some(class) => module.include_module(class),
+            None => false,
+        };
+        exceptions.iter().any(|x| match x.as_splat() {
+            Some(ary) => ary.as_array().unwrap().iter().any(is_kind_of),
+            None => is_kind_of(x),
+        })
     }
 
     /// Generate new class object with `super_val` as a superclass.
-- 
2.43.0


From c81ac1122f4864203b6c7e383f0279747b8cb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 050/127] fix: A::X ignored constants of ancestors; class
 variables were looked up in the class of self and copied for each including
 class

---
 ruruby/src/vm/executor.rs           | 75 ++++++++++++++---------------
 ruruby/src/vm/executor/constants.rs | 16 ++++--
 2 files changed, 47 insertions(+), 44 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index a70a6e4..39cedd5 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -609,51 +609,46 @@ impl VM {
 
 // Handling class variables.
 impl VM {
-    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
-        }
-        let self_val = self.self_value();
-        let org_class = self.globals.get_class_if_object(self_val);
-        let mut class = org_class;
+    /// Get the class which class variables of the current scope belong to.
+    ///
+    /// This is the innermost class or module definition which is not of a singleton class.
+    fn class_var_scope(&self) -> Result<Module, RubyError> {
+        self.get_method_iseq()
+            .class_defined
+            .iter()
+            .rev()
+            .find(|class| !class.is_singleton())
+            .cloned()
+            .ok_or_else(|| RubyError::runtime("class varable access from toplevel."))
+    }
+
+    /// Search the ancestors of `scope` for the class or module which has a class variable `id`.
+    fn find_class_var(scope: Module, id: IdentId) -> Option<Module> {
+        let mut class = scope.top();
         loop {
-            if class.set_var_if_exists(id, val) {
-                return Ok(());
-            } else {
-                match class.upper() {
-                    Some(superclass) => class = superclass,
-                    None => {
-                        org_class.set_var(id, val);
-                        return Ok(());
-                    }
-                }
-            };
+            let module = class.real_module();
+            if module.get_var(id).is_some() {
+                return Some(module);
+            }
+            class = class.upper()?;
         }
     }
 
+    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
+        let scope = self.class_var_scope()?;
+        Self::find_class_var(scope, id)
+            .unwrap_or(scope)
+            .set_var(id, val);
+        Ok(())
+    }
+
     fn get_class_var(&self, id: IdentId) -> VMResult {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
-        }
-        let self_val = self.self_value();
-        let mut class = self.globals.get_class_if_object(self_val);
-        loop {
-            match class.get_var(id) {
-                Some(val) => {
-                    return Ok(val);
-                }
-                None => match class.upper() {
-                    Some(superclass) => {
-                        class = superclass;
-                    }
-                    None => {
-                        return Err(RubyError::name(format!(
-                            "Uninitialized class variable {:?}.",
-                            id
-                        )));
-                    }
-                },
-            }
+        match Self::find_class_var(self.class_var_scope()?, id).and_then(|class| class.get_var(id)) {
+            Some(val) => Ok(val),
+            None => Err(RubyError::name(format!(
+                "Uninitialized class variable {:?}.",
+                id
+            ))),
         }
     }
 }
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index 0b61b80..9ada4ba 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -59,13 +59,21 @@ impl VM {
         }
     }
 
-    /// Search constant table of `parent` for a constant `id`.
+    /// Search the ancestors of `parent` for a constant `id`.
+    /// Toplevel constants are not searched for unless `parent` is Object.
     /// If the constant was found, returns the value.
     /// Returns error if the constant was not defined or an autoload failed.
     pub(super) fn get_scope(&mut self, parent: Module, id: IdentId) -> VMResult {
-        match self.get_mut_const(parent, id)? {
-            Some(val) => Ok(val),
-            None => Err(RubyError::uninitialized_constant(id)),
+        let object = self.globals.classes.object;
+        let mut class = parent.top();
+        loop {
+            if let Some(val) = self.get_mut_const(class, id)? {
+                return Ok(val);
+            }
+            match class.upper() {
+                Some(upper) if upper.id() != object.id() => class = upper,
+                _ => return Err(RubyError::uninitialized_constant(id)),
+            }
         }
     }
 
-- 
2.43.0


From cf2d386bc1cd6a5f3acddfec281a4d4227a63043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 051/127] fix: super without a method of a superclass did not
 call method_missing, which lost the block and the keywords

---
 ruruby/src/vm/executor/method.rs   |  4 +++-
 ruruby/src/vm/executor/opt_core.rs | 30 ++++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 0581c43..b538828 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -379,7 +379,9 @@ impl VM {
         {
             Some(method) => {
                 let len = args.len();
-                let new_args = Args2::new(len + 1);
+                let mut new_args = Args2::new(len + 1);
+                new_args.block = args.block.clone();
+                new_args.kw_arg = args.kw_arg;
                 self.stack
                     .insert(self.sp() - len, Value::symbol(method_name));
                 self.invoke_method(method, &new_args, use_value)
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 2f818fa..0cd413f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -782,14 +782,23 @@ impl VM {
             };
             let mut keyword = self.handle_hash_args(flag)?;
             let class = self.globals.get_class_for_method(self_value);
-            let method = class
-                .search_super_method(iseq.method, m_id)
-                .ok_or_else(|| {
-                    RubyError::nomethod(format!(
+            let method = match class.search_super_method(iseq.method, m_id) {
+                Some(method) => Some(method),
+                None if self
+                    .globals
+                    .methods
+                    .find_method(class, IdentId::_METHOD_MISSING)
+                    .is_some() =>
+                {
+                    None
+                }
+                None => {
+                    return Err(RubyError::nomethod(format!(
                         "no superclass method `{:?}' for {:?}.",
                         m_id, self_value
-                    ))
-                })?;
+                    )))
+                }
+            };
             let mut args = if no_arg {
                 // When `super` has no arguments, use arguments which were passed to the current method.
                 self.push_current_args()
@@ -802,7 +811,9 @@ impl VM {
                         self.stack.extend_from_slice(ary);
                     }
                 }
-                if let MethodInfo::RubyFunc { iseq } = &self.globals.methods[method] {
+                if let Some(MethodInfo::RubyFunc { iseq }) =
+                    method.map(|method| &self.globals.methods[method])
+                {
                     // Keyword arguments are dropped if the method can not take them.
                     if !iseq.params.accepts_keywords()
                         && iseq.params.check_arity(true, &args).is_err()
@@ -814,7 +825,10 @@ impl VM {
                 args
             };
             args.block = block;
-            self.invoke_method(method, &args, true)
+            match method {
+                Some(method) => self.invoke_method(method, &args, true),
+                None => self.invoke_method_missing(m_id, &args, true),
+            }
         } else {
             Err(RubyError::nomethod("super called outside of method"))
         }
-- 
2.43.0


From c8d1382f11119abb0a120565cadfaea04aab756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:30 +0000
Subject: [PATCH 052/127] fix: send did not call method_missing

---
 ruruby/src/builtin/object.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 6ffa530..7b6c9ef 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -216,11 +216,22 @@ fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(symbol) => symbol,
         None => return Err(RubyError::argument("Must be a symbol.")),
     };
-    let fid = receiver.get_method_or_nomethod(&mut vm.globals, method_id)?;
-
     let (mut src, mut len) = vm.args_range();
-    src += 1;
-    len -= 1;
+    let fid = match vm.globals.find_method_from_receiver(receiver, method_id) {
+        Some(fid) => {
+            src += 1;
+            len -= 1;
+            fid
+        }
+        // `method_missing` takes the name of the method as the first argument.
+        None => match vm
+            .globals
+            .find_method_from_receiver(receiver, IdentId::_METHOD_MISSING)
+        {
+            Some(fid) => fid,
+            None => return Err(VMError::undefined_method(method_id, receiver)),
+        },
+    };
     let mut new_arg = Args2::new_with_block(len, args.block.clone());
     new_arg.kw_arg = args.kw_arg;
     vm.eval_method_range(fid, self_val, src, len, &new_arg)
-- 
2.43.0


From 8eda89f0de6ad2208e7743e58599b72db2d0557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 053/127] fix: super in an alias of an inherited method called
 the method itself

---
 ruruby/src/value/class.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index e532cfb..d9ea6c7 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -211,18 +211,33 @@ impl Module {
 
     /// Search the method which is called by `super` in the method `fid` named `name`, for a receiver which class is `self`.
     pub(crate) fn search_super_method(&self, fid: FnId, name: IdentId) -> Option<FnId> {
+        // An alias of an inherited method is not the place where the method was defined.
+        self.search_upper_method(name, |class| class.get_instance_method(name) == Some(fid))
+            .or_else(|| {
+                self.search_upper_method(name, |class| {
+                    class.ext.method_table.values().any(|id| *id == fid)
+                })
+            })?
+    }
+
+    /// Search `method` from the ancestors of `self` above the first one which satisfies `is_owner`.
+    /// Return None if no class satisfies `is_owner`.
+    fn search_upper_method(
+        &self,
+        method: IdentId,
+        is_owner: impl Fn(Module) -> bool,
+    ) -> Option<Option<FnId>> {
         let mut class = self.top();
-        let mut found = false;
-        loop {
-            if found {
-                if let Some(method) = class.get_instance_method(name) {
-                    return Some(method);
-                }
-            } else {
-                found = class.ext.method_table.values().any(|id| *id == fid);
-            }
+        while !is_owner(class) {
             class = class.upper()?;
         }
+        while let Some(upper) = class.upper() {
+            if let Some(method) = upper.get_instance_method(method) {
+                return Some(Some(method));
+            }
+            class = upper;
+        }
+        Some(None)
     }
 
     pub(crate) fn search_method_no_inherit(&self, method: IdentId) -> Option<FnId> {
-- 
2.43.0


From 43bc0b9e2ba1e01e5dc5d663740271f9592df7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 054/127] fix: ||= of a constant with a scope raised NameError,
 evaluated the scope twice, and ::X = v assigned in the current class

---
 ruruby/src/codegen.rs | 88 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 84 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 01ec5e2..b086af3 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -289,8 +289,12 @@ impl Codegen {
         let lhs_loc = lhs.loc();
         match lhs.kind {
             NodeKind::Ident(id) | NodeKind::LocalVar(id) => self.emit_set_local(iseq, id),
-            NodeKind::Const { id, toplevel: _ } => {
-                iseq.gen_push_nil();
+            NodeKind::Const { id, toplevel } => {
+                if toplevel {
+                    self.emit_get_const_top(iseq, IdentId::OBJECT);
+                } else {
+                    iseq.gen_push_nil();
+                }
                 iseq.gen_set_const(id);
             }
             NodeKind::InstanceVar(id) => iseq.gen_set_instance_var(id),
@@ -402,9 +406,13 @@ impl Codegen {
                 self.gen_assign_val(globals, iseq, rhs, use_value)?;
                 self.emit_set_local(iseq, id);
             }
-            NodeKind::Const { id, toplevel: _ } => {
+            NodeKind::Const { id, toplevel } => {
                 self.gen_assign_val(globals, iseq, rhs, use_value)?;
-                iseq.gen_push_nil();
+                if toplevel {
+                    self.emit_get_const_top(iseq, IdentId::OBJECT);
+                } else {
+                    iseq.gen_push_nil();
+                }
                 iseq.gen_set_const(id);
             }
             NodeKind::InstanceVar(id) => {
@@ -559,6 +567,78 @@ impl Codegen {
         lhs: Node,
         rhs: Node,
         use_value: bool,
+    ) -> Result<(), RubyError> {
+        let loc = lhs.loc();
+        let (parent, id) = match lhs.kind {
+            NodeKind::Scope(box parent, id) => (Some(parent), id),
+            NodeKind::Const { toplevel: true, id } => (None, id),
+            kind => {
+                let lhs = Node::new(kind, loc);
+                return self.gen_assign_op_nonscope(globals, iseq, op, lhs, rhs, use_value);
+            }
+        };
+        // Push the module, which is evaluated only once.
+        match parent {
+            Some(parent) => self.gen(globals, iseq, parent, true)?,
+            None => self.emit_get_const_top(iseq, IdentId::OBJECT),
+        }
+        let mut undef = None;
+        if op == BinOp::LOr {
+            iseq.gen_dup(1);
+            iseq.push(Inst::CHECK_SCOPE);
+            iseq.push32(id.into());
+            undef = Some(iseq.gen_jmp_if_t());
+        }
+        iseq.gen_dup(1);
+        self.emit_get_scope(iseq, id, loc);
+        let skip = match op {
+            BinOp::LAnd | BinOp::LOr => {
+                iseq.gen_dup(1);
+                let skip = if op == BinOp::LAnd {
+                    iseq.gen_jmp_if_f()
+                } else {
+                    iseq.gen_jmp_if_t()
+                };
+                iseq.gen_pop();
+                if let Some(undef) = undef {
+                    iseq.write_disp_from_cur(undef);
+                }
+                self.gen(globals, iseq, rhs, true)?;
+                Some(skip)
+            }
+            _ => {
+                self.gen_binop_rhs(globals, iseq, op, rhs, loc)?;
+                None
+            }
+        };
+        if use_value {
+            iseq.gen_dup(1);
+            iseq.gen_sinkn(2);
+        }
+        iseq.gen_sinkn(1);
+        iseq.gen_set_const(id);
+        if let Some(skip) = skip {
+            let end = iseq.gen_jmp();
+            iseq.write_disp_from_cur(skip);
+            if use_value {
+                iseq.gen_sinkn(1);
+            } else {
+                iseq.gen_pop();
+            }
+            iseq.gen_pop();
+            iseq.write_disp_from_cur(end);
+        }
+        Ok(())
+    }
+
+    fn gen_assign_op_nonscope(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        lhs: Node,
+        rhs: Node,
+        use_value: bool,
     ) -> Result<(), RubyError> {
         let loc = lhs.loc();
         // Push receiver and indexes, and duplicate them for the reference.
-- 
2.43.0


From c5a124ef3e59213a4caba112dccf337df482428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:36 +0000
Subject: [PATCH 055/127] fix: ensure clauses were skipped by exceptions, and
 by return, break, and next out of nested begin-expressions

---
 ruruby/src/codegen.rs | 164 +++++++++++++++++++++++++-----------------
 1 file changed, 97 insertions(+), 67 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index b086af3..c70415d 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -117,20 +117,67 @@ impl Codegen {
         self.context_stack.last_mut().unwrap()
     }
 
-    fn push_jump_dest(&mut self, has_ensure: bool) {
+    fn push_jump_dest(&mut self, ensure: Option<Node>) {
+        let loop_len = self.loop_stack.len();
         self.context_mut()
             .jump_dest
-            .push(LocalJumpDest::new(has_ensure));
+            .push(LocalJumpDest::new(ensure, loop_len));
     }
 
     fn pop_jump_dest(&mut self) -> LocalJumpDest {
         self.context_mut().jump_dest.pop().unwrap()
     }
 
-    fn push_ex_rescue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
-        self.context_mut()
-            .exception_table
-            .push(ExceptionEntry::new_rescue(body_start, body_end, dest));
+    fn push_ex_rescue(
+        &mut self,
+        body_start: ISeqPos,
+        body_end: ISeqPos,
+        ensures: Vec<(ISeqPos, ISeqPos)>,
+        dest: ISeqPos,
+    ) {
+        // Inlined ensure clauses are not guarded by the body itself.
+        let table = &mut self.context_mut().exception_table;
+        let mut start = body_start;
+        for (ensure_start, ensure_end) in ensures {
+            table.push(ExceptionEntry::new_rescue(start, ensure_start, dest));
+            start = ensure_end;
+        }
+        table.push(ExceptionEntry::new_rescue(start, body_end, dest));
+    }
+
+    /// Push a new loop.
+    fn push_loop(&mut self) {
+        let dest_len = self.context().jump_dest.len();
+        self.loop_stack.push(LoopInfo::new_loop(dest_len));
+    }
+
+    /// Generate ensure clauses of all begin-expressions which a jump leaves,
+    /// i.e. those at or above `from` in the stack of jump destinations, from the innermost to the outermost.
+    fn gen_ensures(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        from: usize,
+    ) -> Result<(), RubyError> {
+        let mut left: Vec<LocalJumpDest> = vec![];
+        while self.context().jump_dest.len() > from {
+            let mut dest = self.pop_jump_dest();
+            if let Some(ensure) = dest.ensure.clone() {
+                let inner_loops = self.loop_stack.split_off(dest.loop_len);
+                let start = iseq.current();
+                self.gen(globals, iseq, ensure, false)?;
+                let end = iseq.current();
+                self.loop_stack.extend(inner_loops);
+                dest.inlined_ensures.push((start, end));
+                for inner in left.iter_mut() {
+                    inner.inlined_ensures.push((start, end));
+                }
+            }
+            left.push(dest);
+        }
+        left.reverse();
+        self.context_mut().jump_dest.append(&mut left);
+        Ok(())
     }
 
     fn push_ex_continue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
@@ -1307,7 +1354,7 @@ impl Codegen {
                 body,
                 cond_op,
             } => {
-                self.loop_stack.push(LoopInfo::new_loop());
+                self.push_loop();
 
                 let loop_start = iseq.current();
                 let src = if cond_op {
@@ -1346,9 +1393,12 @@ impl Codegen {
             } => {
                 let mut ensure_dest = vec![];
                 let body_start = iseq.current();
-                self.push_jump_dest(ensure.is_some());
+                // Ensure clause guards all of body, rescue clauses, and else clause.
+                self.push_jump_dest(ensure.clone().map(|node| *node));
+                // Rescue clauses guard only body.
+                self.push_jump_dest(None);
                 self.gen(globals, iseq, *body, use_value)?;
-                let jump_dest = self.pop_jump_dest();
+                let body_dest = self.pop_jump_dest();
                 let body_end = iseq.current();
                 let mut dest = None;
                 let mut prev = None;
@@ -1395,9 +1445,6 @@ impl Codegen {
                     if let Some(prev) = prev {
                         iseq.write_disp_from_cur(prev);
                     }
-                    if let Some(box ensure) = ensure.clone() {
-                        self.gen(globals, iseq, ensure, false)?;
-                    }
                     self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
                     //iseq.gen_pop();
@@ -1414,41 +1461,25 @@ impl Codegen {
                     };
                     self.gen(globals, iseq, *else_, use_value)?
                 };
-                if !jump_dest.is_empty() {
-                    // Ensure clause for exception return path.
-                    let ensure_label = iseq.gen_jmp();
-                    for dest in &jump_dest.return_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.return_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_return();
-                    }
-                    for dest in &jump_dest.mreturn_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.mreturn_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_method_return();
-                    }
-                    iseq.write_disp_from_cur(ensure_label);
-                }
-                // Ensure clause for noraml return path.
                 for src in ensure_dest {
                     iseq.write_disp_from_cur(src);
                 }
+                let jump_dest = self.pop_jump_dest();
+                let ensure_start = iseq.current();
                 if let Some(dest) = dest {
-                    self.push_ex_rescue(body_start, body_end, dest);
+                    self.push_ex_rescue(body_start, body_end, body_dest.inlined_ensures, dest);
                 }
-                // Ensure clause does not return value.
-                if let Some(ensure) = ensure {
-                    self.gen(globals, iseq, *ensure, false)?;
+                if let Some(box ensure) = ensure {
+                    // Ensure clause for normal return path. (does not return value)
+                    self.gen(globals, iseq, ensure.clone(), false)?;
+                    let end = iseq.gen_jmp();
+                    // Ensure clause for exception path.
+                    let dest = iseq.current();
+                    self.push_ex_rescue(body_start, ensure_start, jump_dest.inlined_ensures, dest);
+                    self.gen(globals, iseq, ensure, false)?;
+                    self.save_loc(iseq, node.loc);
+                    iseq.push(Inst::THROW);
+                    iseq.write_disp_from_cur(end);
                 }
             }
             NodeKind::Case { cond, when_, else_ } => {
@@ -1803,17 +1834,7 @@ impl Codegen {
                 // Call ensure clauses.
                 // Note ensure clause does not return any value.
                 let is_block = self.context().kind == ContextKind::Block;
-                if let Some(ex) = self.context_mut().jump_dest.last_mut() {
-                    if ex.has_ensure {
-                        let dest = iseq.gen_jmp();
-                        if is_block {
-                            ex.mreturn_entries.push(dest)
-                        } else {
-                            ex.return_entries.push(dest)
-                        };
-                        return Ok(());
-                    }
-                }
+                self.gen_ensures(globals, iseq, 0)?;
                 self.save_loc(iseq, node.loc);
                 if is_block {
                     iseq.gen_method_return();
@@ -1827,6 +1848,7 @@ impl Codegen {
                     match self.context().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
+                            self.gen_ensures(globals, iseq, 0)?;
                             self.save_loc(iseq, node_loc);
                             iseq.gen_break();
                         }
@@ -1845,6 +1867,8 @@ impl Codegen {
                 } else {
                     //In the case of inner of loops
                     self.gen(globals, iseq, *val, true)?;
+                    let dest_len = self.loop_stack.last().unwrap().dest_len;
+                    self.gen_ensures(globals, iseq, dest_len)?;
                     let src = iseq.gen_jmp();
                     let x = self.loop_stack.last_mut().unwrap();
                     x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
@@ -1856,6 +1880,7 @@ impl Codegen {
                     match self.context_stack.last().unwrap().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
+                            self.gen_ensures(globals, iseq, 0)?;
                             iseq.gen_return();
                         }
                         ContextKind::Method(_) | ContextKind::Class(_) => {
@@ -1872,7 +1897,9 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, use_value)?;
+                    self.gen(globals, iseq, *val, false)?;
+                    let dest_len = self.loop_stack.last().unwrap().dest_len;
+                    self.gen_ensures(globals, iseq, dest_len)?;
                     let src = iseq.gen_jmp();
                     let x = self.loop_stack.last_mut().unwrap();
                     x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
@@ -2162,6 +2189,8 @@ impl Codegen {
 struct LoopInfo {
     state: LoopState,
     escape: Vec<EscapeInfo>,
+    /// The number of jump destinations outside of the loop.
+    dest_len: usize,
 }
 
 impl LoopInfo {
@@ -2169,13 +2198,15 @@ impl LoopInfo {
         LoopInfo {
             state: LoopState::Top,
             escape: vec![],
+            dest_len: 0,
         }
     }
 
-    fn new_loop() -> Self {
+    fn new_loop(dest_len: usize) -> Self {
         LoopInfo {
             state: LoopState::Loop,
             escape: vec![],
+            dest_len,
         }
     }
 }
@@ -2239,26 +2270,25 @@ impl Context {
 }
 
 /// Local jump destination entry.
-/// i.e. return and method_return
+/// i.e. begin-expressions which return, break, and next go out of.
 #[derive(Debug, Clone, PartialEq)]
 struct LocalJumpDest {
-    has_ensure: bool,
-    return_entries: Vec<ISeqPos>,
-    mreturn_entries: Vec<ISeqPos>,
+    /// Ensure clause.
+    ensure: Option<Node>,
+    /// The number of loops outside of the begin-expression.
+    loop_len: usize,
+    /// Ranges of ensure clauses inlined before the jumps.
+    inlined_ensures: Vec<(ISeqPos, ISeqPos)>,
 }
 
 impl LocalJumpDest {
-    fn new(has_ensure: bool) -> Self {
+    fn new(ensure: Option<Node>, loop_len: usize) -> Self {
         LocalJumpDest {
-            has_ensure,
-            return_entries: vec![],
-            mreturn_entries: vec![],
+            ensure,
+            loop_len,
+            inlined_ensures: vec![],
         }
     }
-
-    fn is_empty(&self) -> bool {
-        self.return_entries.is_empty() && self.mreturn_entries.is_empty()
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 600bf1a503aa9ebe688c917da2ae29e4b5e34be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 056/127] fix: variables added by an eval of a binding were not
 initialized to nil

---
 ruruby/src/vm/executor/frame.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index bc39fc0..423a180 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -341,6 +341,7 @@ impl EnvFrame {
         }
         for _ in 0..new_len - local_len {
             new[0] = Value::nil();
+            new += 1;
         }
         self.set_local_len(new_len);
         self[EV_ISEQ] = Value::fixnum(iseq.encode());
-- 
2.43.0


From 422d5b74f2168d2449f5935699c376cf7c8076c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 057/127] fix: an exception caught in a sub-expression
 discarded pending operands of the expression

---
 ruruby-common/src/code_context.rs   | 29 ++++---------------
 ruruby-common/src/lvar_collector.rs |  6 +++-
 ruruby-common/src/vm_inst.rs        |  3 ++
 ruruby/src/codegen.rs               | 43 +++++++++++++++++++++--------
 ruruby/src/codegen/defined.rs       |  4 ++-
 ruruby/src/globals.rs               |  1 +
 ruruby/src/vm/executor.rs           |  5 +---
 ruruby/src/vm/executor/frame.rs     | 23 +++++++++------
 ruruby/src/vm/executor/opt_core.rs  |  4 +++
 9 files changed, 69 insertions(+), 49 deletions(-)

diff --git a/ruruby-common/src/code_context.rs b/ruruby-common/src/code_context.rs
index ac26b01..88b02ba 100644
--- a/ruruby-common/src/code_context.rs
+++ b/ruruby-common/src/code_context.rs
@@ -17,48 +17,31 @@ impl ContextKind {
 
 #[derive(Clone, PartialEq)]
 pub struct ExceptionEntry {
-    pub ty: ExceptionType,
     /// start position in ISeq.
     pub start: ISeqPos,
     /// end position in ISeq.
     pub end: ISeqPos,
     pub dest: ISeqPos,
-}
-
-/// Type of each exception.
-#[derive(Debug, Clone, PartialEq)]
-pub enum ExceptionType {
-    /// When raised, exec stack is cleared.
-    Rescue,
-    /// When raised, exec stack does not change.
-    Continue,
+    /// local variable which holds the depth of the exec stack at the start.
+    pub depth: LvarId,
 }
 
 impl fmt::Debug for ExceptionEntry {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.write_fmt(format_args!(
-            "ExceptionEntry {:?} ({:?}, {:?}) => {:?}",
-            self.ty, self.start, self.end, self.dest,
+            "ExceptionEntry ({:?}, {:?}) => {:?}",
+            self.start, self.end, self.dest,
         ))
     }
 }
 
 impl ExceptionEntry {
-    pub fn new_rescue(start: ISeqPos, end: ISeqPos, dest: ISeqPos) -> Self {
-        Self {
-            ty: ExceptionType::Rescue,
-            start,
-            end,
-            dest,
-        }
-    }
-
-    pub fn new_continue(start: ISeqPos, end: ISeqPos, dest: ISeqPos) -> Self {
+    pub fn new(start: ISeqPos, end: ISeqPos, dest: ISeqPos, depth: LvarId) -> Self {
         Self {
-            ty: ExceptionType::Continue,
             start,
             end,
             dest,
+            depth,
         }
     }
 
diff --git a/ruruby-common/src/lvar_collector.rs b/ruruby-common/src/lvar_collector.rs
index 63d7b4f..afb26ae 100644
--- a/ruruby-common/src/lvar_collector.rs
+++ b/ruruby-common/src/lvar_collector.rs
@@ -175,10 +175,14 @@ impl LvarTable {
         self.0.iter().position(|i| *i == id).map(LvarId::from)
     }
 
-    fn push(&mut self, id: IdentId) {
+    pub fn push(&mut self, id: IdentId) {
         self.0.push(id)
     }
 
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
     fn get(&self, i: usize) -> Option<IdentId> {
         self.0.get(i).cloned()
     }
diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 2a3d7bc..920030b 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -75,6 +75,7 @@ impl Inst {
     pub const THROW: u8 = 110;
     pub const OPT_CASE2: u8 = 111;
     pub const SUPER: u8 = 112;
+    pub const SAVE_SP: u8 = 113;
     
     pub const ADD: u8 = 120;
     pub const SUB: u8 = 121;
@@ -242,6 +243,7 @@ impl Inst {
             Inst::MRETURN => "MRETURN",
             Inst::YIELD => "YIELD",
             Inst::RESCUE => "RESCUE",
+            Inst::SAVE_SP => "SAVE_SP",
             Inst::THROW => "THROW",
             Inst::SUPER => "SUPER",
 
@@ -341,6 +343,7 @@ impl Inst {
             | Inst::DEF_SCLASS          // block: u32
             | Inst::CREATE_HASH         // number of items: u32
             | Inst::RESCUE              // number of items: u32
+            | Inst::SAVE_SP             // LvarId: u32
             => 5,
 
             Inst::YIELD => 6,
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index c70415d..e9435b3 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -128,21 +128,40 @@ impl Codegen {
         self.context_mut().jump_dest.pop().unwrap()
     }
 
-    fn push_ex_rescue(
+    fn push_ex(
         &mut self,
         body_start: ISeqPos,
         body_end: ISeqPos,
         ensures: Vec<(ISeqPos, ISeqPos)>,
         dest: ISeqPos,
+        depth: LvarId,
     ) {
         // Inlined ensure clauses are not guarded by the body itself.
         let table = &mut self.context_mut().exception_table;
         let mut start = body_start;
         for (ensure_start, ensure_end) in ensures {
-            table.push(ExceptionEntry::new_rescue(start, ensure_start, dest));
+            table.push(ExceptionEntry::new(start, ensure_start, dest, depth));
             start = ensure_end;
         }
-        table.push(ExceptionEntry::new_rescue(start, body_end, dest));
+        table.push(ExceptionEntry::new(start, body_end, dest, depth));
+    }
+
+    /// Save the depth of the exec stack in a hidden local variable.
+    /// The variable is reserved until `depth_vars` of the context is decremented.
+    fn gen_save_sp(&mut self, iseq: &mut ISeq) -> LvarId {
+        let context = self.context_mut();
+        let name = IdentId::get_id(&format!("%{}", context.depth_vars));
+        context.depth_vars += 1;
+        let id = match context.lvar_info.get_lvarid(name) {
+            Some(id) => id,
+            None => {
+                context.lvar_info.push(name);
+                LvarId::from(context.lvar_info.len() - 1)
+            }
+        };
+        iseq.push(Inst::SAVE_SP);
+        iseq.push32(id.as_u32());
+        id
     }
 
     /// Push a new loop.
@@ -180,11 +199,6 @@ impl Codegen {
         Ok(())
     }
 
-    fn push_ex_continue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
-        self.context_mut()
-            .exception_table
-            .push(ExceptionEntry::new_continue(body_start, body_end, dest));
-    }
 }
 
 impl Codegen {
@@ -194,7 +208,7 @@ impl Codegen {
         globals: &mut Globals,
         param_list: Vec<FormalParam>,
         node: Node,
-        lvar_collector: LvarCollector,
+        mut lvar_collector: LvarCollector,
         use_value: bool,
         kind: ContextKind,
         forvars: Vec<IdentId>,
@@ -269,6 +283,7 @@ impl Codegen {
 
         let iseq_sourcemap = context.iseq_sourcemap;
         let exception_table = context.exception_table;
+        lvar_collector.table = context.lvar_info;
         iseq.gen_return();
         iseq.optimize();
         self.loc = save_loc;
@@ -1392,6 +1407,7 @@ impl Codegen {
                 ensure,
             } => {
                 let mut ensure_dest = vec![];
+                let depth = self.gen_save_sp(iseq);
                 let body_start = iseq.current();
                 // Ensure clause guards all of body, rescue clauses, and else clause.
                 self.push_jump_dest(ensure.clone().map(|node| *node));
@@ -1467,7 +1483,7 @@ impl Codegen {
                 let jump_dest = self.pop_jump_dest();
                 let ensure_start = iseq.current();
                 if let Some(dest) = dest {
-                    self.push_ex_rescue(body_start, body_end, body_dest.inlined_ensures, dest);
+                    self.push_ex(body_start, body_end, body_dest.inlined_ensures, dest, depth);
                 }
                 if let Some(box ensure) = ensure {
                     // Ensure clause for normal return path. (does not return value)
@@ -1475,12 +1491,13 @@ impl Codegen {
                     let end = iseq.gen_jmp();
                     // Ensure clause for exception path.
                     let dest = iseq.current();
-                    self.push_ex_rescue(body_start, ensure_start, jump_dest.inlined_ensures, dest);
+                    self.push_ex(body_start, ensure_start, jump_dest.inlined_ensures, dest, depth);
                     self.gen(globals, iseq, ensure, false)?;
                     self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
                     iseq.write_disp_from_cur(end);
                 }
+                self.context_mut().depth_vars -= 1;
             }
             NodeKind::Case { cond, when_, else_ } => {
                 let mut end = vec![];
@@ -2243,6 +2260,8 @@ pub struct Context {
     pub iseq_sourcemap: Vec<(ISeqPos, Loc)>,
     /// Unsolved destinations of local jumps.
     jump_dest: Vec<LocalJumpDest>,
+    /// The number of hidden local variables in use.
+    depth_vars: usize,
     exception_table: Vec<ExceptionEntry>,
     kind: ContextKind,
 }
@@ -2253,6 +2272,7 @@ impl Context {
             lvar_info: LvarTable::new(),
             iseq_sourcemap: vec![],
             jump_dest: vec![],
+            depth_vars: 0,
             exception_table: vec![],
             kind: ContextKind::Eval,
         }
@@ -2263,6 +2283,7 @@ impl Context {
             lvar_info,
             iseq_sourcemap: vec![],
             jump_dest: vec![],
+            depth_vars: 0,
             exception_table: vec![],
             kind,
         }
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index 701d718..95ddc06 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -11,13 +11,15 @@ impl Codegen {
         let mut nil_labels = vec![];
         let mut exceptions = vec![];
         let s = defined_str(&content);
+        let depth = self.gen_save_sp(iseq);
         self.check_defined(globals, &content, iseq, &mut nil_labels, &mut exceptions)?;
         iseq.gen_string(globals, s);
         let end = iseq.gen_jmp();
         let pos = iseq.current();
         for ex in exceptions {
-            self.push_ex_continue(ex.0, ex.1, pos);
+            self.push_ex(ex.0, ex.1, vec![], pos, depth);
         }
+        self.context_mut().depth_vars -= 1;
         iseq.push(Inst::POP);
         nil_labels
             .iter()
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 422fd2f..9dbb265 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -444,6 +444,7 @@ impl Globals {
             | Inst::TOPN
             | Inst::CONCAT_STRING
             | Inst::YIELD
+            | Inst::SAVE_SP
             | Inst::RESCUE => format!(
                 "{} {} items",
                 Inst::inst_name(iseq[pc]),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 39cedd5..7b1a9f1 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -454,10 +454,7 @@ impl VM {
                         if let Some(entry) = catch {
                             // Exception raised inside of begin-end with rescue clauses.
                             self.set_pc(entry.dest);
-                            match entry.ty {
-                                ExceptionType::Rescue => self.clear_stack(),
-                                _ => {}
-                            };
+                            self.restore_sp(entry.depth);
                             let val = self
                                 .globals
                                 .from_exception(&err)
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 423a180..468666d 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -322,7 +322,10 @@ impl EnvFrame {
         while let Some(e) = ep {
             let iseq = e.iseq();
             for v in iseq.lvar.table() {
-                vec.insert(*v);
+                // Variables which hold the depth of the exec stack are not visible.
+                if !v.starts_with("%") {
+                    vec.insert(*v);
+                }
             }
             ep = e.outer();
         }
@@ -669,14 +672,16 @@ impl VM {
         }
     }
 
-    pub(super) fn clear_stack(&mut self) {
-        self.stack.sp = self.cfp.as_sp()
-            + CONT_FRAME_LEN
-            + if self.is_ruby_func() {
-                RUBY_FRAME_LEN
-            } else {
-                0
-            };
+    /// Save the depth of the exec stack of the current frame in a local variable.
+    pub(super) fn save_sp(&mut self, id: LvarId) {
+        let base = self.cfp.as_sp() + CONT_FRAME_LEN + RUBY_FRAME_LEN;
+        self.lfp[id] = Value::fixnum((self.stack.sp - base) as i64);
+    }
+
+    /// Restore the depth of the exec stack of the current frame from a local variable.
+    pub(super) fn restore_sp(&mut self, id: LvarId) {
+        let base = self.cfp.as_sp() + CONT_FRAME_LEN + RUBY_FRAME_LEN;
+        self.stack.sp = base + self.lfp[id].as_fnum() as usize;
     }
 
     fn push_control_frame(&mut self, prev_cfp: ControlFrame, ep: EnvFrame, flag: u64) {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 0cd413f..40c41b1 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -160,6 +160,10 @@ impl VM {
                         self.pc -= 1;
                         return Err(RubyError::value());
                     }
+                    Inst::SAVE_SP => {
+                        let id = self.pc.read_lvar_id();
+                        self.save_sp(id);
+                    }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
                     Inst::PUSH_SELF => self.stack_push(self_val),
                     Inst::PUSH_VAL => {
-- 
2.43.0


From 61719acd71f18774b12e4b3e61243883a61499e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:31 +0000
Subject: [PATCH 058/127] fix: break and next of a loop in a sub-expression
 left pending operands on the stack

---
 ruruby-common/src/vm_inst.rs       |  3 +++
 ruruby/src/codegen.rs              | 39 +++++++++++++++++++++---------
 ruruby/src/globals.rs              |  1 +
 ruruby/src/vm/executor/opt_core.rs |  6 +++++
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 920030b..ee1ca22 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -76,6 +76,7 @@ impl Inst {
     pub const OPT_CASE2: u8 = 111;
     pub const SUPER: u8 = 112;
     pub const SAVE_SP: u8 = 113;
+    pub const RESTORE_SP: u8 = 114;
     
     pub const ADD: u8 = 120;
     pub const SUB: u8 = 121;
@@ -244,6 +245,7 @@ impl Inst {
             Inst::YIELD => "YIELD",
             Inst::RESCUE => "RESCUE",
             Inst::SAVE_SP => "SAVE_SP",
+            Inst::RESTORE_SP => "RESTORE_SP",
             Inst::THROW => "THROW",
             Inst::SUPER => "SUPER",
 
@@ -344,6 +346,7 @@ impl Inst {
             | Inst::CREATE_HASH         // number of items: u32
             | Inst::RESCUE              // number of items: u32
             | Inst::SAVE_SP             // LvarId: u32
+            | Inst::RESTORE_SP          // LvarId: u32
             => 5,
 
             Inst::YIELD => 6,
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index e9435b3..4dfd830 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -164,10 +164,21 @@ impl Codegen {
         id
     }
 
-    /// Push a new loop.
-    fn push_loop(&mut self) {
-        let dest_len = self.context().jump_dest.len();
-        self.loop_stack.push(LoopInfo::new_loop(dest_len));
+    /// Generate code for the value of `break` or `next` in the innermost loop, and discard pending operands.
+    fn gen_loop_jump(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        val: Node,
+    ) -> Result<(), RubyError> {
+        let LoopInfo {
+            dest_len, depth, ..
+        } = *self.loop_stack.last().unwrap();
+        self.gen(globals, iseq, val, true)?;
+        self.gen_ensures(globals, iseq, dest_len)?;
+        iseq.push(Inst::RESTORE_SP);
+        iseq.push32(depth.as_u32());
+        Ok(())
     }
 
     /// Generate ensure clauses of all begin-expressions which a jump leaves,
@@ -1369,7 +1380,9 @@ impl Codegen {
                 body,
                 cond_op,
             } => {
-                self.push_loop();
+                let depth = self.gen_save_sp(iseq);
+                let dest_len = self.context().jump_dest.len();
+                self.loop_stack.push(LoopInfo::new_loop(dest_len, depth));
 
                 let loop_start = iseq.current();
                 let src = if cond_op {
@@ -1399,6 +1412,7 @@ impl Codegen {
                 }
 
                 iseq.write_disp_from_cur(src);
+                self.context_mut().depth_vars -= 1;
             }
             NodeKind::Begin {
                 body,
@@ -1883,9 +1897,7 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, true)?;
-                    let dest_len = self.loop_stack.last().unwrap().dest_len;
-                    self.gen_ensures(globals, iseq, dest_len)?;
+                    self.gen_loop_jump(globals, iseq, *val)?;
                     let src = iseq.gen_jmp();
                     let x = self.loop_stack.last_mut().unwrap();
                     x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
@@ -1914,9 +1926,8 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, false)?;
-                    let dest_len = self.loop_stack.last().unwrap().dest_len;
-                    self.gen_ensures(globals, iseq, dest_len)?;
+                    self.gen_loop_jump(globals, iseq, *val)?;
+                    iseq.gen_pop();
                     let src = iseq.gen_jmp();
                     let x = self.loop_stack.last_mut().unwrap();
                     x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
@@ -2208,6 +2219,8 @@ struct LoopInfo {
     escape: Vec<EscapeInfo>,
     /// The number of jump destinations outside of the loop.
     dest_len: usize,
+    /// Local variable which holds the depth of the exec stack at the start.
+    depth: LvarId,
 }
 
 impl LoopInfo {
@@ -2216,14 +2229,16 @@ impl LoopInfo {
             state: LoopState::Top,
             escape: vec![],
             dest_len: 0,
+            depth: LvarId::from(0usize),
         }
     }
 
-    fn new_loop(dest_len: usize) -> Self {
+    fn new_loop(dest_len: usize, depth: LvarId) -> Self {
         LoopInfo {
             state: LoopState::Loop,
             escape: vec![],
             dest_len,
+            depth,
         }
     }
 }
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 9dbb265..3ad7353 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -445,6 +445,7 @@ impl Globals {
             | Inst::CONCAT_STRING
             | Inst::YIELD
             | Inst::SAVE_SP
+            | Inst::RESTORE_SP
             | Inst::RESCUE => format!(
                 "{} {} items",
                 Inst::inst_name(iseq[pc]),
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 40c41b1..d7ac6ad 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -164,6 +164,12 @@ impl VM {
                         let id = self.pc.read_lvar_id();
                         self.save_sp(id);
                     }
+                    Inst::RESTORE_SP => {
+                        let id = self.pc.read_lvar_id();
+                        let val = self.stack_pop();
+                        self.restore_sp(id);
+                        self.stack_push(val);
+                    }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
                     Inst::PUSH_SELF => self.stack_push(self_val),
                     Inst::PUSH_VAL => {
-- 
2.43.0


From 7540a7e23b3a8fed68d3a536186338d0997cc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 059/127] fix: break and return in a block given to a Ruby
 method, and return in a lambda, ended the wrong frame and skipped ensure
 clauses

---
 ruruby-common/src/code_context.rs  |  5 +-
 ruruby-common/src/error.rs         | 30 ++++++----
 ruruby-common/src/vm_inst.rs       |  3 +
 ruruby/src/builtin/kernel.rs       |  1 -
 ruruby/src/codegen.rs              | 45 ++++++++++-----
 ruruby/src/codegen/defined.rs      |  2 +-
 ruruby/src/coroutine/stack.rs      |  2 +-
 ruruby/src/globals.rs              |  2 +-
 ruruby/src/vm/executor.rs          | 88 ++++++++++++++++++------------
 ruruby/src/vm/executor/frame.rs    | 39 +++++++++++++
 ruruby/src/vm/executor/method.rs   |  3 +-
 ruruby/src/vm/executor/opt_core.rs | 52 +++++-------------
 ruruby/src/vm/iseq.rs              |  2 +-
 13 files changed, 170 insertions(+), 104 deletions(-)

diff --git a/ruruby-common/src/code_context.rs b/ruruby-common/src/code_context.rs
index 88b02ba..625fc7f 100644
--- a/ruruby-common/src/code_context.rs
+++ b/ruruby-common/src/code_context.rs
@@ -24,6 +24,8 @@ pub struct ExceptionEntry {
     pub dest: ISeqPos,
     /// local variable which holds the depth of the exec stack at the start.
     pub depth: LvarId,
+    /// true for ensure clauses, which also handle `break` and `return` in blocks.
+    pub is_ensure: bool,
 }
 
 impl fmt::Debug for ExceptionEntry {
@@ -36,12 +38,13 @@ impl fmt::Debug for ExceptionEntry {
 }
 
 impl ExceptionEntry {
-    pub fn new(start: ISeqPos, end: ISeqPos, dest: ISeqPos, depth: LvarId) -> Self {
+    pub fn new(start: ISeqPos, end: ISeqPos, dest: ISeqPos, depth: LvarId, is_ensure: bool) -> Self {
         Self {
             start,
             end,
             dest,
             depth,
+            is_ensure,
         }
     }
 
diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 50e2006..32cc459 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -13,8 +13,8 @@ impl std::fmt::Debug for RubyError {
                 write!(f, "{:?}: ({})", kind, message)
             }
             RubyErrorKind::ParseErr(kind) => write!(f, "{:?}", kind),
-            RubyErrorKind::MethodReturn => write!(f, "MethodReturn"),
-            RubyErrorKind::BlockReturn => write!(f, "BlockReturn"),
+            RubyErrorKind::MethodReturn(_) => write!(f, "MethodReturn"),
+            RubyErrorKind::BlockReturn(_) => write!(f, "BlockReturn"),
             RubyErrorKind::Exception => write!(f, "Exception"),
             RubyErrorKind::SystemExit(code) => write!(f, "SystemExit({})", code),
             RubyErrorKind::Internal(msg) => write!(f, "InternalError {}", msg),
@@ -31,8 +31,10 @@ pub enum RubyErrorKind {
         message: String,
     },
     Exception,
-    MethodReturn,
-    BlockReturn,
+    /// `return` in a block. (the frame to return from)
+    MethodReturn(u32),
+    /// `break` in a block. (the frame which called a method with the block)
+    BlockReturn(u32),
     SystemExit(i64),
     Internal(String),
     None(String),
@@ -114,8 +116,12 @@ impl RubyError {
         )
     }
 
-    pub fn is_block_return(&self) -> bool {
-        matches!(&self.kind, RubyErrorKind::BlockReturn)
+    /// Whether this is not an exception but a jump, i.e. `break` or `return` in a block.
+    pub fn is_jump(&self) -> bool {
+        matches!(
+            &self.kind,
+            RubyErrorKind::MethodReturn(_) | RubyErrorKind::BlockReturn(_)
+        )
     }
 
     pub fn is_exception(&self) -> bool {
@@ -156,8 +162,8 @@ impl RubyError {
                 ParseErrKind::SyntaxError(n) => format!("SyntaxError ({})", n),
             },
             RubyErrorKind::RuntimeErr { kind, message } => format!("{:?} ({})", kind, message),
-            RubyErrorKind::MethodReturn => "LocalJumpError".to_string(),
-            RubyErrorKind::BlockReturn => "LocalJumpError".to_string(),
+            RubyErrorKind::MethodReturn(_) => "LocalJumpError".to_string(),
+            RubyErrorKind::BlockReturn(_) => "LocalJumpError".to_string(),
             RubyErrorKind::Exception => "Exception".to_string(),
             RubyErrorKind::SystemExit(_) => "SystemExit".to_string(),
             RubyErrorKind::None(msg) => msg.to_owned(),
@@ -265,12 +271,12 @@ impl RubyError {
 }
 
 impl RubyError {
-    pub fn method_return() -> RubyError {
-        RubyError::new(RubyErrorKind::MethodReturn)
+    pub fn method_return(frame: u32) -> RubyError {
+        RubyError::new(RubyErrorKind::MethodReturn(frame))
     }
 
-    pub fn block_return() -> RubyError {
-        RubyError::new(RubyErrorKind::BlockReturn)
+    pub fn block_return(frame: u32) -> RubyError {
+        RubyError::new(RubyErrorKind::BlockReturn(frame))
     }
 
     pub fn value() -> RubyError {
diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index ee1ca22..942caf0 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -77,6 +77,7 @@ impl Inst {
     pub const SUPER: u8 = 112;
     pub const SAVE_SP: u8 = 113;
     pub const RESTORE_SP: u8 = 114;
+    pub const RETHROW: u8 = 115;
     
     pub const ADD: u8 = 120;
     pub const SUB: u8 = 121;
@@ -244,6 +245,7 @@ impl Inst {
             Inst::MRETURN => "MRETURN",
             Inst::YIELD => "YIELD",
             Inst::RESCUE => "RESCUE",
+            Inst::RETHROW => "RETHROW",
             Inst::SAVE_SP => "SAVE_SP",
             Inst::RESTORE_SP => "RESTORE_SP",
             Inst::THROW => "THROW",
@@ -290,6 +292,7 @@ impl Inst {
             | Inst::POP
             | Inst::BREAK
             | Inst::MRETURN
+            | Inst::RETHROW
             | Inst::THROW => 1,
                                         // operand
             Inst::SET_LOCAL           // LvarId: u32
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index d526393..bc0e2df 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -273,7 +273,6 @@ fn loop_(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         match vm.eval_block0(&block) {
             Ok(_) => {}
             Err(err) => match &err.kind {
-                RubyErrorKind::BlockReturn => return Ok(vm.globals.val),
                 RubyErrorKind::RuntimeErr {
                     kind: RuntimeErrKind::StopIteration,
                     ..
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 4dfd830..6f8092f 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -135,15 +135,22 @@ impl Codegen {
         ensures: Vec<(ISeqPos, ISeqPos)>,
         dest: ISeqPos,
         depth: LvarId,
+        is_ensure: bool,
     ) {
         // Inlined ensure clauses are not guarded by the body itself.
         let table = &mut self.context_mut().exception_table;
         let mut start = body_start;
         for (ensure_start, ensure_end) in ensures {
-            table.push(ExceptionEntry::new(start, ensure_start, dest, depth));
+            table.push(ExceptionEntry::new(
+                start,
+                ensure_start,
+                dest,
+                depth,
+                is_ensure,
+            ));
             start = ensure_end;
         }
-        table.push(ExceptionEntry::new(start, body_end, dest, depth));
+        table.push(ExceptionEntry::new(start, body_end, dest, depth, is_ensure));
     }
 
     /// Save the depth of the exec stack in a hidden local variable.
@@ -1497,18 +1504,32 @@ impl Codegen {
                 let jump_dest = self.pop_jump_dest();
                 let ensure_start = iseq.current();
                 if let Some(dest) = dest {
-                    self.push_ex(body_start, body_end, body_dest.inlined_ensures, dest, depth);
+                    self.push_ex(
+                        body_start,
+                        body_end,
+                        body_dest.inlined_ensures,
+                        dest,
+                        depth,
+                        false,
+                    );
                 }
                 if let Some(box ensure) = ensure {
                     // Ensure clause for normal return path. (does not return value)
                     self.gen(globals, iseq, ensure.clone(), false)?;
                     let end = iseq.gen_jmp();
-                    // Ensure clause for exception path.
+                    // Ensure clause for exceptions, and for `break` and `return` in blocks.
                     let dest = iseq.current();
-                    self.push_ex(body_start, ensure_start, jump_dest.inlined_ensures, dest, depth);
+                    self.push_ex(
+                        body_start,
+                        ensure_start,
+                        jump_dest.inlined_ensures,
+                        dest,
+                        depth,
+                        true,
+                    );
                     self.gen(globals, iseq, ensure, false)?;
                     self.save_loc(iseq, node.loc);
-                    iseq.push(Inst::THROW);
+                    iseq.push(Inst::RETHROW);
                     iseq.write_disp_from_cur(end);
                 }
                 self.context_mut().depth_vars -= 1;
@@ -1862,14 +1883,13 @@ impl Codegen {
             }
             NodeKind::Return(val) => {
                 self.gen(globals, iseq, *val, true)?;
-                // Call ensure clauses.
-                // Note ensure clause does not return any value.
-                let is_block = self.context().kind == ContextKind::Block;
-                self.gen_ensures(globals, iseq, 0)?;
-                self.save_loc(iseq, node.loc);
-                if is_block {
+                if self.context().kind == ContextKind::Block {
+                    self.save_loc(iseq, node.loc);
                     iseq.gen_method_return();
                 } else {
+                    // Call ensure clauses.
+                    // Note ensure clause does not return any value.
+                    self.gen_ensures(globals, iseq, 0)?;
                     iseq.gen_return();
                 }
             }
@@ -1879,7 +1899,6 @@ impl Codegen {
                     match self.context().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
-                            self.gen_ensures(globals, iseq, 0)?;
                             self.save_loc(iseq, node_loc);
                             iseq.gen_break();
                         }
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index 95ddc06..d0841fc 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -17,7 +17,7 @@ impl Codegen {
         let end = iseq.gen_jmp();
         let pos = iseq.current();
         for ex in exceptions {
-            self.push_ex(ex.0, ex.1, vec![], pos, depth);
+            self.push_ex(ex.0, ex.1, vec![], pos, depth, false);
         }
         self.context_mut().depth_vars -= 1;
         iseq.push(Inst::POP);
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index f38b7b9..27207ba 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -106,7 +106,7 @@ extern "C" fn new_context(handle: FiberHandle) {
     eprintln!("<=== yield {:?} and terminate fiber.", res);
     let res = match res {
         Err(err) => match &err.kind {
-            RubyErrorKind::MethodReturn => Err(err.conv_localjump_err()),
+            RubyErrorKind::MethodReturn(_) => Err(err.conv_localjump_err()),
             _ => Err(err),
         },
         res => res,
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 3ad7353..b7a85ab 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -278,7 +278,7 @@ impl Globals {
                     Value::exception(err_class, err)
                 }
             },
-            RubyErrorKind::MethodReturn | RubyErrorKind::BlockReturn => {
+            RubyErrorKind::MethodReturn(_) | RubyErrorKind::BlockReturn(_) => {
                 let err_class = self.get_toplevel_constant("LocalJumpError").into_module();
                 Value::exception(err_class, err)
             }
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 7b1a9f1..cff56ab 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -408,40 +408,12 @@ impl VM {
                     return Ok(val);
                 }
                 Err(mut err) => {
-                    match err.kind {
-                        RubyErrorKind::BlockReturn => {
-                            #[cfg(feature = "trace")]
-                            eprintln!("<+++ BlockReturn({:?})", self.globals.val);
-                            return Err(err);
-                        }
-                        RubyErrorKind::MethodReturn => {
-                            // In the case of MethodReturn, returned value is to be saved in vm.globals.val.
-                            loop {
-                                if invoke_count == 0 {
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<+++ MethodReturn({:?})", self.globals.val);
-                                    self.unwind_frame();
-                                    return Err(err);
-                                };
-                                self.unwind_frame();
-                                #[cfg(feature = "trace")]
-                                eprintln!("<--- MethodReturn({:?})", self.globals.val);
-                                invoke_count -= 1;
-                                if self.iseq.is_method() {
-                                    break;
-                                }
-                            }
-                            let val = self.globals.val;
-                            self.stack_push(val);
-                            continue;
-                        }
-                        _ => {}
-                    }
                     // Handle Exception.
                     loop {
                         let cur_pc = self.pc_offset();
                         let iseq = self.iseq;
-                        if err.info.is_empty() || iseq.kind != ISeqKind::Block {
+                        let is_jump = err.is_jump();
+                        if !is_jump && (err.info.is_empty() || iseq.kind != ISeqKind::Block) {
                             err.info
                                 .push((iseq.source_info.clone(), iseq.get_loc(cur_pc)));
                         }
@@ -450,7 +422,10 @@ impl VM {
                             err.show_all_loc();
                             unreachable!("{}", msg);
                         };
-                        let catch = iseq.exception_table.iter().find(|x| x.include(cur_pc));
+                        let catch = iseq
+                            .exception_table
+                            .iter()
+                            .find(|x| x.include(cur_pc) && (x.is_ensure || !is_jump));
                         if let Some(entry) = catch {
                             // Exception raised inside of begin-end with rescue clauses.
                             self.set_pc(entry.dest);
@@ -461,26 +436,69 @@ impl VM {
                                 .unwrap_or(self.globals.val);
                             #[cfg(feature = "trace")]
                             eprintln!(":::: Exception({:?})", val);
-                            self.stack_push(val);
+                            if entry.is_ensure {
+                                self.push_pending(&err, val);
+                            } else {
+                                self.stack_push(val);
+                            }
                             break;
                         } else {
                             // Exception raised outside of begin-end.
+                            // For `break` and `return`, the value is saved in vm.globals.val.
+                            let is_dest =
+                                err.kind == RubyErrorKind::MethodReturn(self.cur_frame().0);
+                            let use_value = !self.discard_val();
+                            self.unwind_frame();
                             if invoke_count == 0 {
-                                self.unwind_frame();
                                 #[cfg(feature = "trace")]
                                 eprintln!("<+++ {:?}", err.kind);
-                                return Err(err);
+                                return if is_dest {
+                                    Ok(self.globals.val)
+                                } else {
+                                    Err(err)
+                                };
                             }
-                            self.unwind_frame();
                             invoke_count -= 1;
                             #[cfg(feature = "trace")]
                             eprintln!("<--- {:?}", err.kind);
+                            if is_dest
+                                || err.kind == RubyErrorKind::BlockReturn(self.cur_frame().0)
+                            {
+                                if use_value {
+                                    let val = self.globals.val;
+                                    self.stack_push(val);
+                                }
+                                break;
+                            }
                         }
                     }
                 }
             }
         }
     }
+
+    /// Push an exception or a jump, which waits until an ensure clause ends.
+    fn push_pending(&mut self, err: &RubyError, val: Value) {
+        let (val, kind, frame) = match err.kind {
+            RubyErrorKind::BlockReturn(frame) => (self.globals.val, 1, frame),
+            RubyErrorKind::MethodReturn(frame) => (self.globals.val, 2, frame),
+            _ => (val, 0, 0),
+        };
+        self.stack_push(val);
+        self.stack_push(Value::fixnum((frame as i64) << 2 | kind));
+    }
+
+    /// Pop what `push_pending` pushed.
+    fn pop_pending(&mut self) -> RubyError {
+        let state = self.stack_pop().as_fnum();
+        self.globals.val = self.stack_pop();
+        let frame = (state >> 2) as u32;
+        match state & 0b11 {
+            0 => RubyError::value(),
+            1 => RubyError::block_return(frame),
+            _ => RubyError::method_return(frame),
+        }
+    }
 }
 
 impl VM {
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 468666d..b144b00 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -672,6 +672,45 @@ impl VM {
         }
     }
 
+    /// Find the nearest frame on the exec stack whose environment is `ep`.
+    fn find_frame(&self, ep: EnvFrame) -> Option<ControlFrame> {
+        let mut cfp = Some(self.cfp);
+        while let Some(f) = cfp {
+            if f.is_ruby_func() && f.ep() == ep {
+                return Some(f);
+            }
+            cfp = f.prev();
+        }
+        None
+    }
+
+    /// `break` in the current block. The frame where the block was written in gets the value.
+    pub(super) fn block_break(&self) -> RubyError {
+        if self.iseq.is_method() {
+            // lambda
+            return RubyError::method_return(self.cur_frame().0);
+        }
+        match self.cfp.ep().outer().and_then(|e| self.find_frame(e.ep())) {
+            Some(f) => RubyError::block_return(self.cfp_index(f)),
+            None => RubyError::local_jump("Break from proc-closure."),
+        }
+    }
+
+    /// `return` in the current block. The outer method (or lambda) returns the value.
+    pub(super) fn block_method_return(&self) -> RubyError {
+        let mut ep = self.cfp.ep();
+        while !ep.iseq().is_method() {
+            match ep.outer() {
+                Some(outer) => ep = outer.ep(),
+                None => break,
+            }
+        }
+        match self.find_frame(ep) {
+            Some(f) => RubyError::method_return(self.cfp_index(f)),
+            None => RubyError::local_jump("Unexpected return."),
+        }
+    }
+
     /// Save the depth of the exec stack of the current frame in a local variable.
     pub(super) fn save_sp(&mut self, id: LvarId) {
         let base = self.cfp.as_sp() + CONT_FRAME_LEN + RUBY_FRAME_LEN;
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index b538828..fde6f87 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -575,7 +575,8 @@ impl VM {
         match res {
             Ok(val) => Ok(val),
             Err(err) => {
-                if err.is_block_return() {
+                // `break` in the block which was given to this method.
+                if err.kind == RubyErrorKind::BlockReturn(self.cur_frame().0) {
                     let val = self.globals.val;
                     Ok(val)
                 } else {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index d7ac6ad..ab52d52 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -33,26 +33,7 @@ impl VM {
                                 self.stack_push(v);
                             }
                         }
-                        Err(err) => match err.kind {
-                            RubyErrorKind::BlockReturn => {}
-                            RubyErrorKind::MethodReturn if self.iseq.is_method() => {
-                                let val = self.globals.val;
-                                if *invoke_count == 0 {
-                                    return Ok(val);
-                                } else {
-                                    self.unwind_frame();
-                                    *invoke_count -= 1;
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<--- Ok({:?})", self.globals.val);
-                                    self.stack_push(val);
-                                    break;
-                                }
-                            }
-                            RubyErrorKind::MethodReturn => {
-                                return Err(err);
-                            }
-                            _ => return Err(err),
-                        },
+                        Err(err) => return Err(err),
                     }
                 };
             }
@@ -131,28 +112,16 @@ impl VM {
                         }
                     }
                     Inst::BREAK => {
-                        // - `break`  in block or eval AND outer of loops.
-                        debug_assert!(
-                            self.kind() == ISeqKind::Block || self.kind() == ISeqKind::Other
-                        );
+                        // - `break`  in block AND outer of loops.
                         self.globals.val = self.stack_pop();
-                        self.unwind_frame();
-                        if *invoke_count == 0 {
-                            let err = RubyError::block_return();
-                            return Err(err);
-                        } else {
-                            *invoke_count -= 1;
-                            #[cfg(feature = "trace")]
-                            eprintln!("<--- BlockReturn({:?})", self.globals.val);
-                            break;
-                        }
+                        self.pc -= 1;
+                        return Err(self.block_break());
                     }
                     Inst::MRETURN => {
                         // - `return` in block
-                        debug_assert!(self.kind() == ISeqKind::Block);
                         self.globals.val = self.stack_pop();
-                        let err = RubyError::method_return();
-                        return Err(err);
+                        self.pc -= 1;
+                        return Err(self.block_method_return());
                     }
                     Inst::THROW => {
                         // - raise error
@@ -160,6 +129,14 @@ impl VM {
                         self.pc -= 1;
                         return Err(RubyError::value());
                     }
+                    Inst::RETHROW => {
+                        // - end of ensure clause
+                        let err = self.pop_pending();
+                        if !err.is_jump() {
+                            self.pc -= 1;
+                        }
+                        return Err(err);
+                    }
                     Inst::SAVE_SP => {
                         let id = self.pc.read_lvar_id();
                         self.save_sp(id);
@@ -424,6 +401,7 @@ impl VM {
                     }
                     Inst::CREATE_PROC => {
                         let method = self.pc.read_method().unwrap();
+                        self.globals.methods[method].as_iseq().kind = ISeqKind::Method(None);
                         let proc_obj = Value::procobj(self, self_val, method, self.cfp);
                         self.stack_push(proc_obj);
                     }
diff --git a/ruruby/src/vm/iseq.rs b/ruruby/src/vm/iseq.rs
index d32b2da..cc1c89b 100644
--- a/ruruby/src/vm/iseq.rs
+++ b/ruruby/src/vm/iseq.rs
@@ -399,7 +399,7 @@ impl ISeq {
                 let next_pos = pos + Inst::inst_size(inst) + disp;
                 self.chase(next_pos, non_conditional)
             }
-            Inst::RETURN | Inst::BREAK | Inst::MRETURN => {
+            Inst::RETURN => {
                 if non_conditional {
                     DestKind::Inst(inst)
                 } else {
-- 
2.43.0


From ab672a2c9659f115410501cfa7932bcc67434b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 060/127] fix: begin .. end while tested the condition before
 the body

---
 ruruby-parse/src/node.rs                | 10 +++++++++-
 ruruby-parse/src/parser/expression.rs   |  8 ++++++--
 ruruby-parse/src/parser/flow_control.rs |  2 +-
 ruruby/src/codegen.rs                   |  9 +++++++++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/node.rs b/ruruby-parse/src/node.rs
index 81fa241..3d2df3f 100644
--- a/ruruby-parse/src/node.rs
+++ b/ruruby-parse/src/node.rs
@@ -64,6 +64,7 @@ pub enum NodeKind {
         cond: Box<Node>,
         body: Box<Node>,
         cond_op: bool, // true: While, false: Until
+        do_while: bool, // true: the body is executed before the condition is tested first.
     },
     Case {
         cond: Option<Box<Node>>,
@@ -633,13 +634,20 @@ impl Node {
         )
     }
 
-    pub(crate) fn new_while(cond: Node, body: Node, cond_op: bool, loc: Loc) -> Self {
+    pub(crate) fn new_while(
+        cond: Node,
+        body: Node,
+        cond_op: bool,
+        do_while: bool,
+        loc: Loc,
+    ) -> Self {
         let loc = loc.merge(body.loc());
         Node::new(
             NodeKind::While {
                 cond: Box::new(cond),
                 body: Box::new(body),
                 cond_op,
+                do_while,
             },
             loc,
         )
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 7629b57..e1aea44 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -48,7 +48,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         // | LHS [no term] = MRHS
         // | * LHS [no term] = (UNPARENTHESIZED-METHOD-CALL | ARG)
         // | MLHS [no term] = MRHS
+        let begin = self.peek()?.kind == TokenKind::Reserved(Reserved::Begin);
         let mut node = self.parse_expr()?;
+        // begin .. end while EXPR
+        let mut do_while = begin && matches!(node.kind, NodeKind::Begin { .. });
         loop {
             if self.consume_reserved_no_skip_line_term(Reserved::If)? {
                 // STMT : STMT if EXPR
@@ -65,13 +68,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let loc = self.prev_loc();
                 let cond = self.parse_expr()?;
                 let loc = loc.merge(self.prev_loc());
-                node = Node::new_while(cond, node, true, loc);
+                node = Node::new_while(cond, node, true, do_while, loc);
             } else if self.consume_reserved_no_skip_line_term(Reserved::Until)? {
                 // STMT : STMT until EXPR
                 let loc = self.prev_loc();
                 let cond = self.parse_expr()?;
                 let loc = loc.merge(self.prev_loc());
-                node = Node::new_while(cond, node, false, loc);
+                node = Node::new_while(cond, node, false, do_while, loc);
             } else if self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
                 // STMT : STMT rescue EXPR
                 let rescue = self.parse_expr()?;
@@ -79,6 +82,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             } else {
                 break;
             }
+            do_while = false;
         }
         // STMT : EXPR
         Ok(node)
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index f583ac4..4213a98 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -60,7 +60,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let body = self.parse_comp_stmt()?;
         self.expect_reserved(Reserved::End)?;
         let loc = loc.merge(self.prev_loc());
-        Ok(Node::new_while(cond, body, is_while, loc))
+        Ok(Node::new_while(cond, body, is_while, false, loc))
     }
 
     pub(super) fn parse_for(&mut self) -> Result<Node, ParseErr> {
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 6f8092f..abf57a7 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1386,11 +1386,17 @@ impl Codegen {
                 cond,
                 body,
                 cond_op,
+                do_while,
             } => {
                 let depth = self.gen_save_sp(iseq);
                 let dest_len = self.context().jump_dest.len();
                 self.loop_stack.push(LoopInfo::new_loop(dest_len, depth));
 
+                let body_label = if do_while {
+                    Some(iseq.gen_jmp())
+                } else {
+                    None
+                };
                 let loop_start = iseq.current();
                 let src = if cond_op {
                     self.gen_jmp_if_false(globals, iseq, *cond)?
@@ -1398,6 +1404,9 @@ impl Codegen {
                     self.gen(globals, iseq, *cond, true)?;
                     iseq.gen_jmp_if_t()
                 };
+                if let Some(label) = body_label {
+                    iseq.write_disp_from_cur(label);
+                }
                 self.gen(globals, iseq, *body, false)?;
                 iseq.gen_jmp_back(loop_start);
                 iseq.write_disp_from_cur(src);
-- 
2.43.0


From 33c585ec9e2c083807312e6ead8afcee78e3039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:58 +0000
Subject: [PATCH 061/127] fix: resuming a running fiber corrupted the machine
 stack, and parameters of fibers but the first were not set

---
 ruruby/src/builtin/enumerator.rs |  8 ++++----
 ruruby/src/builtin/fiber.rs      |  9 ++++-----
 ruruby/src/coroutine.rs          | 32 +++++++++++++++++++++++++-------
 ruruby/src/coroutine/stack.rs    |  9 +--------
 ruruby/src/value/rvalue.rs       |  4 ++--
 ruruby/src/value/value.rs        |  5 ++---
 ruruby/src/vm/executor.rs        | 18 ------------------
 ruruby/src/vm/executor/fiber.rs  |  7 +++++++
 ruruby/src/vm/executor/frame.rs  | 14 --------------
 9 files changed, 45 insertions(+), 61 deletions(-)

diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index 46d2a43..fadc314 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -83,7 +83,7 @@ fn next(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     if eref.state == FiberState::Dead {
         return Err(RubyError::stop_iteration("Iteration reached an end."));
     };
-    match eref.resume(Value::nil()) {
+    match eref.resume(&[]) {
         Ok(val) => Ok(val),
         /*Err(err) if err.is_stop_iteration() => {
             return Err(RubyError::stop_iteration("Iteration reached an end."))
@@ -103,7 +103,7 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let mut fiber = vm.dup_enum(eref);
     let f = vm.eval_block_map1(block);
     loop {
-        let val = match fiber.resume(Value::nil()) {
+        let val = match fiber.resume(&[]) {
             Ok(val) => val,
             Err(err) if err.is_stop_iteration() => break,
             Err(err) => return Err(err),
@@ -143,7 +143,7 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
     loop {
-        let val = match info.resume(Value::nil()) {
+        let val = match info.resume(&[]) {
             Ok(val) => val,
             Err(err) if err.is_stop_iteration() => break,
             Err(err) => return Err(err),
@@ -172,7 +172,7 @@ fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let mut c = 0;
     let len = vm.temp_len();
     loop {
-        let val = match info.resume(Value::nil()) {
+        let val = match info.resume(&[]) {
             Ok(val) => val,
             Err(err) => {
                 if err.is_stop_iteration() {
diff --git a/ruruby/src/builtin/fiber.rs b/ruruby/src/builtin/fiber.rs
index d0fb522..f63dc2b 100644
--- a/ruruby/src/builtin/fiber.rs
+++ b/ruruby/src/builtin/fiber.rs
@@ -16,8 +16,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 fn new(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let val = Value::fiber(vm, args.expect_block()?);
-    Ok(val)
+    let proc = vm.create_proc(args.expect_block()?);
+    Ok(Value::fiber(vm, proc))
 }
 
 fn yield_(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
@@ -35,10 +35,9 @@ fn inspect(_: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     Ok(Value::string(inspect))
 }
 
-fn resume(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(0, 1)?;
+fn resume(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     let fiber = self_val.expect_fiber("")?;
-    fiber.resume(vm.args().get(0).cloned().unwrap_or(Value::nil()))
+    fiber.resume(vm.args())
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index d3e4008..b933bd5 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -18,19 +18,20 @@ use stack::*;
 pub enum FiberState {
     Created,
     Running,
+    Suspended,
     Dead,
 }
 
 #[derive(Clone, Debug)]
 pub enum FiberKind {
-    Fiber(HeapCtxRef),
+    Fiber(Value),
     Enum(Box<EnumInfo>),
 }
 
 impl GC<RValue> for FiberKind {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
         match self {
-            FiberKind::Fiber(context) => context.mark(alloc),
+            FiberKind::Fiber(proc) => proc.mark(alloc),
             FiberKind::Enum(info) => info.mark(alloc),
         }
     }
@@ -59,6 +60,8 @@ pub struct FiberContext {
     pub state: FiberState,
     pub vm: VMRef,
     pub kind: FiberKind,
+    /// The number of the arguments of the first resume.
+    pub args_len: usize,
 }
 
 impl Drop for FiberContext {
@@ -91,6 +94,10 @@ impl FiberHandle {
         unsafe { &(*self.0).kind }
     }
 
+    pub(crate) fn args_len(&self) -> usize {
+        unsafe { (*self.0).args_len }
+    }
+
     /// Yield args to parent fiber. (execute Fiber.yield)
     pub(crate) fn fiber_yield(vm: &mut VM, args: &Args2) -> VMResult {
         let val = match args.len() {
@@ -106,6 +113,7 @@ impl FiberHandle {
                 #[cfg(feature = "trace")]
                 eprintln!("<=== yield Ok({:?})", val);
                 vm.globals.fiber_result = VMResult::Ok(val);
+                unsafe { (*handle.0).state = FiberState::Suspended };
                 asm::yield_context(handle.0);
                 let val = vm.stack_pop();
                 Ok(val)
@@ -149,12 +157,13 @@ impl FiberContext {
             state: FiberState::Created,
             vm,
             kind,
+            args_len: 0,
         }
     }
 
-    pub(crate) fn new_fiber(vm: VM, context: HeapCtxRef) -> Self {
+    pub(crate) fn new_fiber(vm: VM, proc: Value) -> Self {
         let vmref = VMRef::new(vm);
-        FiberContext::new(vmref, FiberKind::Fiber(context))
+        FiberContext::new(vmref, FiberKind::Fiber(proc))
     }
 
     pub(crate) fn new_enumerator(vm: VM, info: EnumInfo) -> Self {
@@ -165,7 +174,7 @@ impl FiberContext {
 
 impl FiberContext {
     /// Resume child fiber.
-    pub(crate) fn resume(&mut self, val: Value) -> VMResult {
+    pub(crate) fn resume(&mut self, args: &[Value]) -> VMResult {
         #[cfg(feature = "trace")]
         eprintln!("===> resume");
         let ptr = self as _;
@@ -173,11 +182,20 @@ impl FiberContext {
             FiberState::Dead => Err(RubyError::fiber("Dead fiber called.")),
             FiberState::Created => {
                 self.initialize();
-                self.vm.stack_push(val);
+                self.args_len = args.len();
+                self.vm.stack_push(Value::nil());
+                args.iter().for_each(|val| self.vm.stack_push(*val));
                 asm::invoke_context(ptr);
                 self.vm.globals.fiber_result.clone()
             }
-            FiberState::Running => {
+            FiberState::Running => Err(RubyError::fiber("Attempt to resume a running fiber.")),
+            FiberState::Suspended => {
+                let val = match args.len() {
+                    0 => Value::nil(),
+                    1 => args[0],
+                    _ => Value::array_from(args.to_vec()),
+                };
+                self.state = FiberState::Running;
                 self.vm.stack_push(val);
                 asm::switch_context(ptr);
                 self.vm.globals.fiber_result.clone()
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index 27207ba..c8e2462 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -92,14 +92,7 @@ extern "C" fn new_context(handle: FiberHandle) {
     let mut fiber_vm = handle.vm();
     fiber_vm.handle = Some(handle);
     let res = match handle.kind() {
-        FiberKind::Fiber(context) => {
-            let val = fiber_vm.stack_pop();
-            fiber_vm.push_block_frame_from_heap(*context);
-            if context.as_ep().iseq().lvars > 0 {
-                fiber_vm.lfp[LvarId::from(0usize)] = val;
-            }
-            fiber_vm.run_loop()
-        }
+        FiberKind::Fiber(proc) => fiber_vm.fiber_main(*proc, handle.args_len()),
         FiberKind::Enum(info) => fiber_vm.enumerator_fiber(info.receiver, &info.args, info.method),
     };
     #[cfg(feature = "trace")]
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 7de7d33..1c23bf6 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -769,8 +769,8 @@ impl RValue {
         )
     }
 
-    pub(crate) fn new_fiber(vm: VM, context: HeapCtxRef) -> Self {
-        let fiber = FiberContext::new_fiber(vm, context);
+    pub(crate) fn new_fiber(vm: VM, proc: Value) -> Self {
+        let fiber = FiberContext::new_fiber(vm, proc);
         RValue::new(ObjKind::FIBER, BuiltinClass::fiber(), ObjKind::fiber(fiber))
     }
 
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index d007c8e..afac94a 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1141,10 +1141,9 @@ impl Value {
         RValue::new_unbound_method(MethodObjInfo::new_unbound(name, method, owner)).pack()
     }
 
-    pub(crate) fn fiber(parent_vm: &mut VM, block: &Block) -> Self {
+    pub(crate) fn fiber(parent_vm: &mut VM, proc: Value) -> Self {
         let new_fiber = parent_vm.create_fiber();
-        let context = parent_vm.create_heap(block);
-        RValue::new_fiber(new_fiber, context).pack()
+        RValue::new_fiber(new_fiber, proc).pack()
     }
 
     pub(crate) fn enumerator(fiber: FiberContext) -> Self {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index cff56ab..ff72bad 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -979,24 +979,6 @@ impl VM {
         HeapCtxRef::new_binding(outer.self_value(), iseq, Some(outer))
     }
 
-    pub(crate) fn create_heap(&mut self, block: &Block) -> HeapCtxRef {
-        let (self_value, fid, outer) = match block {
-            Block::Block(fid, outer) => {
-                let outer = self.move_cfp_to_heap(self.cfp_from_frame(*outer));
-                (outer.self_value(), *fid, Some(outer))
-            }
-            Block::Proc(proc) => {
-                let pinfo = proc.as_proc().unwrap();
-                (pinfo.self_val, pinfo.method, Some(pinfo.outer))
-            }
-            Block::Sym(sym) => {
-                let fid = Codegen::gen_sym_to_proc_iseq(&mut self.globals, *sym);
-                (Value::nil(), fid, None)
-            }
-        };
-        HeapCtxRef::new_heap(self_value, self.globals.methods[fid].as_iseq(), outer)
-    }
-
     /// Create fancy_regex::Regex from `string`.
     /// Escapes all regular expression meta characters in `string`.
     /// Returns RubyError if `string` was invalid regular expression.
diff --git a/ruruby/src/vm/executor/fiber.rs b/ruruby/src/vm/executor/fiber.rs
index 306a0ea..623d108 100644
--- a/ruruby/src/vm/executor/fiber.rs
+++ b/ruruby/src/vm/executor/fiber.rs
@@ -30,6 +30,13 @@ impl VM {
         Ok(Value::enumerator(fiber))
     }
 
+    /// This func is called in the fiber thread of a fiber.
+    /// The receiver and `args_len` arguments are on the stack.
+    pub(crate) fn fiber_main(&mut self, proc: Value, args_len: usize) -> VMResult {
+        self.invoke_proc(proc, None, &Args2::new(args_len))?
+            .handle(self)
+    }
+
     /// This func is called in the fiber thread of a enumerator.
     /// `vm`: VM of created fiber.
     pub(crate) fn enumerator_fiber(
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index b144b00..e9c9558 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -501,20 +501,6 @@ impl VM {
         );
     }
 
-    pub(crate) fn push_block_frame_from_heap(&mut self, ctx: HeapCtxRef) {
-        let ep = ctx.as_ep();
-        self.stack_push(ctx.self_val());
-        self.push_block_frame(
-            self.sp() - 1,
-            true,
-            Some(ep),
-            ep.outer(),
-            ep.iseq(),
-            0,
-            ep.get_lfp(),
-        );
-    }
-
     pub(crate) fn push_block_frame_from_binding(&mut self, binding_context: EnvFrame) {
         let ep = binding_context;
         self.stack_push(ep.self_value());
-- 
2.43.0


From 34d436eac6d363f827640edd8919f47ddc689f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 062/127] fix: each and with_index of an enumerator ignored
 what the method does with the values of the block, collections freed what the
 method still used

---
 ruruby/src/builtin/enumerator.rs | 136 ++++++-------------------------
 ruruby/src/startup/startup.rb    |  22 +++++
 ruruby/src/vm/executor/fiber.rs  |   4 +-
 3 files changed, 50 insertions(+), 112 deletions(-)

diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index fadc314..a38e9f9 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -6,9 +6,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     globals.set_toplevel_constant("Enumerator", class);
     class.add_builtin_method_by_str(globals, "next", next);
     class.add_builtin_method_by_str(globals, "each", each);
-    class.add_builtin_method_by_str(globals, "map", map);
-    class.add_builtin_method_by_str(globals, "collect", map);
-    class.add_builtin_method_by_str(globals, "with_index", with_index);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
 
     class.add_builtin_class_method(globals, "new", enum_new);
@@ -52,18 +49,15 @@ fn inspect(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
         _ => unreachable!(),
     };
 
-    let arg_string = {
-        match args.len() {
-            0 => "".to_string(),
-            1 => format!(" {:?}", vm[0]),
-            _ => {
-                let mut s = format!(" {:?}", vm[0]);
-                for i in 1..args.len() {
-                    s = format!("{},{:?}", s, args[i]);
-                }
-                s
-            }
-        }
+    let arg_string = args
+        .iter()
+        .map(|arg| vm.val_inspect(*arg))
+        .collect::<Result<Vec<_>, _>>()?
+        .join(", ");
+    let arg_string = if arg_string.is_empty() {
+        arg_string
+    } else {
+        format!("({})", arg_string)
     };
 
     let receiver_string = vm.val_inspect(receiver)?;
@@ -74,7 +68,7 @@ fn inspect(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     Ok(Value::string(inspect))
 }
 
-fn next(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+fn next(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
     if args.block.is_some() {
@@ -84,109 +78,33 @@ fn next(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         return Err(RubyError::stop_iteration("Iteration reached an end."));
     };
     match eref.resume(&[]) {
+        Ok(_) if eref.state == FiberState::Dead => {
+            Err(RubyError::stop_iteration("Iteration reached an end."))
+        }
         Ok(val) => Ok(val),
-        /*Err(err) if err.is_stop_iteration() => {
-            return Err(RubyError::stop_iteration("Iteration reached an end."))
-        }*/
-        Err(err) => Err(err),
+        Err(err) => {
+            if eref.state == FiberState::Dead {
+                // The next call starts the iteration again.
+                *eref = *vm.dup_enum(eref);
+            }
+            Err(err)
+        }
     }
 }
 
 fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
-    // A new fiber must be constructed for each method call.
-    let block = match &args.block {
-        None => return Ok(self_val),
-        Some(block) => block,
+    if args.block.is_none() {
+        return Ok(self_val);
     };
-    let mut fiber = vm.dup_enum(eref);
-    let f = vm.eval_block_map1(block);
-    loop {
-        let val = match fiber.resume(&[]) {
-            Ok(val) => val,
-            Err(err) if err.is_stop_iteration() => break,
-            Err(err) => return Err(err),
-        };
-        //vm.eval_block1(block, val)?;
-        f(vm, val)?;
-    }
-    let mut recv = match &eref.kind {
-        FiberKind::Enum(einfo) => einfo.receiver,
+    let (receiver, method, mut new_args) = match &eref.kind {
+        FiberKind::Enum(info) => (info.receiver, info.method, info.args.clone()),
         _ => unreachable!(),
     };
-    loop {
-        recv = match recv.as_enumerator() {
-            Some(eref) => match &eref.kind {
-                FiberKind::Enum(einfo) => einfo.receiver,
-                _ => unreachable!(),
-            },
-            None => break,
-        };
-    }
-    Ok(recv)
-}
-
-fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
-    let block = match &args.block {
-        None => {
-            // return Enumerator
-            let id = IdentId::MAP;
-            let e = vm.create_enumerator(id, self_val, args.into(vm))?;
-            return Ok(e);
-        }
-        Some(block) => block,
-    };
-    let len = vm.temp_len();
-    let f = vm.eval_block_map1(block);
-    loop {
-        let val = match info.resume(&[]) {
-            Ok(val) => val,
-            Err(err) if err.is_stop_iteration() => break,
-            Err(err) => return Err(err),
-        };
-        //let res = vm.eval_block1(block, val)?;
-        let res = f(vm, val)?;
-        vm.temp_push(res);
-    }
-    Ok(Value::array_from(vm.temp_pop_vec(len)))
-}
-
-fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
-    let block = match &args.block {
-        None => {
-            // return Enumerator
-            let id = IdentId::get_id("with_index");
-            let e = vm.create_enumerator(id, self_val, args.into(vm))?;
-            return Ok(e);
-        }
-        Some(block) => block,
-    };
-
-    let mut c = 0;
-    let len = vm.temp_len();
-    loop {
-        let val = match info.resume(&[]) {
-            Ok(val) => val,
-            Err(err) => {
-                if err.is_stop_iteration() {
-                    break;
-                } else {
-                    return Err(err);
-                }
-            }
-        };
-        let res = vm.eval_block2(block, val, Value::integer(c))?;
-        vm.temp_push(res);
-        c += 1;
-    }
-    Ok(Value::array_from(vm.temp_pop_vec(len)))
+    new_args.block = args.block.clone();
+    let method = receiver.get_method_or_nomethod(&mut vm.globals, method)?;
+    vm.eval_method(method, receiver, &new_args, &Args2::from(&new_args))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/startup/startup.rb b/ruruby/src/startup/startup.rb
index 849736c..7f1dbba 100644
--- a/ruruby/src/startup/startup.rb
+++ b/ruruby/src/startup/startup.rb
@@ -6,6 +6,28 @@ end
 module Enumerable
 end
 
+class Enumerator
+  def map
+    return to_enum(:map) unless block_given?
+    result = []
+    each { |*x| result << yield(x.size > 1 ? x : x[0]) }
+    result
+  end
+
+  def collect
+    return to_enum(:collect) unless block_given?
+    result = []
+    each { |*x| result << yield(x.size > 1 ? x : x[0]) }
+    result
+  end
+
+  def with_index(*args)
+    return to_enum(:with_index, *args) unless block_given?
+    i = (args[0] || 0) - 1
+    each { |*x| yield(x.size > 1 ? x : x[0], i += 1) }
+  end
+end
+
 module Marshal
   MAJOR_VERSION = 0
   MINOR_VERSION = 0
diff --git a/ruruby/src/vm/executor/fiber.rs b/ruruby/src/vm/executor/fiber.rs
index 623d108..6e78eb1 100644
--- a/ruruby/src/vm/executor/fiber.rs
+++ b/ruruby/src/vm/executor/fiber.rs
@@ -46,9 +46,7 @@ impl VM {
         method_name: IdentId,
     ) -> VMResult {
         let method = self_val.get_method_or_nomethod(&mut self.globals, method_name)?;
-        let val = self.eval_method(method, self_val, &args, &Args2::from(args))?;
-        self.globals.val = val;
-        Err(RubyError::stop_iteration("Iteration reached an end."))
+        self.eval_method(method, self_val, &args, &Args2::from(args))
     }
 
     fn create_enum_info(&mut self, info: EnumInfo) -> FiberContext {
-- 
2.43.0


From ff66e84753eb81ed24a1c81c1a2de99c13651ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:14 +0000
Subject: [PATCH 063/127] fix: dup of an enumerator or a fiber made an object
 that crashed

---
 ruruby/src/builtin/object.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 7b6c9ef..561a488 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -1,3 +1,4 @@
+use crate::coroutine::*;
 use crate::*;
 
 pub(crate) fn init(globals: &mut Globals) {
@@ -91,8 +92,17 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    if let Some(eref) = self_val.as_enumerator() {
+        if eref.state == FiberState::Created {
+            return Ok(Value::enumerator(*vm.dup_enum(eref)));
+        }
+        return Err(RubyError::typeerr("Can't copy execution context."));
+    }
+    if self_val.expect_fiber("").is_ok() {
+        return Err(RubyError::typeerr("Allocator undefined for Fiber."));
+    }
     let val = self_val.shallow_dup();
     Ok(val)
 }
-- 
2.43.0


From 0e7c19fd979d2a1d2e4adf6a4b0228f651104cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 064/127] fix: Enumerator#map told the iterating method the
 array it builds

---
 ruruby/src/startup/startup.rb | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/startup/startup.rb b/ruruby/src/startup/startup.rb
index 7f1dbba..0131934 100644
--- a/ruruby/src/startup/startup.rb
+++ b/ruruby/src/startup/startup.rb
@@ -10,14 +10,20 @@ class Enumerator
   def map
     return to_enum(:map) unless block_given?
     result = []
-    each { |*x| result << yield(x.size > 1 ? x : x[0]) }
+    each do |*x|
+      result << yield(x.size > 1 ? x : x[0])
+      nil
+    end
     result
   end
 
   def collect
     return to_enum(:collect) unless block_given?
     result = []
-    each { |*x| result << yield(x.size > 1 ? x : x[0]) }
+    each do |*x|
+      result << yield(x.size > 1 ? x : x[0])
+      nil
+    end
     result
   end
 
-- 
2.43.0


From 405f8cb5f34879741ae6f8eac8bcb30b864790e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 065/127] fix: the receiver of an enumerator was freed after
 next reached the end

---
 ruruby/src/coroutine.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index b933bd5..2eb6f11 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -73,11 +73,10 @@ impl Drop for FiberContext {
 
 impl GC<RValue> for FiberContext {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
-        if self.state == FiberState::Dead {
-            return;
-        }
-        self.vm.mark(alloc);
         self.kind.mark(alloc);
+        if self.state != FiberState::Dead {
+            self.vm.mark(alloc);
+        }
     }
 }
 
-- 
2.43.0


From 0bc5001563b450f8489293b74d234c497e69e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 066/127] fix: the object of a singleton class which is still
 in use was freed

---
 ruruby/src/value/class.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index d9ea6c7..174cb89 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -358,6 +358,9 @@ impl GC<RValue> for ClassInfo {
         if let Some(module) = &self.ext.origin {
             module.mark(alloc)
         };
+        if let Some(target) = &self.ext.singleton_for {
+            target.mark(alloc)
+        };
     }
 }
 
-- 
2.43.0


From 7fb0ab3f15353928ef21d2f79445a1b8ddb0a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 067/127] fix: copies of objects shared the singleton class,
 copies of classes shared everything, and copies of arrays and hashes lost
 class and variables

---
 ruruby/src/builtin/array.rs  |  8 -------
 ruruby/src/builtin/hash.rs   |  8 -------
 ruruby/src/builtin/object.rs | 36 +++++++++++++++++++++++++++----
 ruruby/src/value/class.rs    | 42 ++++++++++++++++++++++++++++++++++++
 4 files changed, 74 insertions(+), 20 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index e07be2d..5cf28db 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -56,8 +56,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "max", max);
     class.add_builtin_method_by_str(globals, "first", first);
     class.add_builtin_method_by_str(globals, "last", last);
-    class.add_builtin_method_by_str(globals, "dup", dup);
-    class.add_builtin_method_by_str(globals, "clone", dup);
     class.add_builtin_method_by_str(globals, "pack", pack);
     class.add_builtin_method_by_str(globals, "join", join);
     class.add_builtin_method_by_str(globals, "drop", drop);
@@ -839,12 +837,6 @@ fn last(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let aref = self_val.into_array();
-    Ok(Value::array_from(aref.to_vec()))
-}
-
 fn pack(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let aref = self_val.into_array();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 8115db3..3370dc3 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -6,8 +6,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "to_s", inspect);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "clear", clear);
-    class.add_builtin_method_by_str(globals, "clone", clone);
-    class.add_builtin_method_by_str(globals, "dup", clone);
     class.add_builtin_method_by_str(globals, "compact", compact);
     class.add_builtin_method_by_str(globals, "delete", delete);
     class.add_builtin_method_by_str(globals, "empty?", empty);
@@ -68,12 +66,6 @@ fn clear(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
-    Ok(Value::hash_from(hash.clone()))
-}
-
 fn compact(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let mut hash = self_val.expect_hash("Receiver")?.clone();
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 561a488..662d275 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -21,7 +21,7 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "eql?", eql);
     object.add_builtin_method_by_str(globals, "singleton_class", singleton_class);
     object.add_builtin_method_by_str(globals, "extend", extend);
-    object.add_builtin_method_by_str(globals, "clone", dup);
+    object.add_builtin_method_by_str(globals, "clone", clone);
     object.add_builtin_method_by_str(globals, "dup", dup);
     object.add_builtin_method_by_str(globals, "nil?", nil_);
     object.add_builtin_method_by_str(globals, "method", method);
@@ -92,8 +92,37 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+fn dup(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    let val = copy(vm, self_val)?;
+    if self_val.if_mod_class().is_none() {
+        if let Some(rvalue) = self_val.as_rvalue() {
+            val.set_class(rvalue.real_class());
+        }
+    }
+    Ok(val)
+}
+
+fn clone(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let val = copy(vm, self_val)?;
+    if self_val.if_mod_class().is_none() {
+        if let Some(rvalue) = self_val.as_rvalue() {
+            let class = rvalue.class();
+            if class.is_singleton() {
+                val.set_class(class.copy_singleton(val));
+            }
+        }
+    }
+    Ok(val)
+}
+
+/// Copy `self_val`. The copy of an object, unlike that of a class or a module, shares the
+/// singleton class with `self_val`.
+fn copy(vm: &mut VM, mut self_val: Value) -> VMResult {
+    if let Some(module) = self_val.if_mod_class() {
+        return Ok(module.copy().into());
+    }
     if let Some(eref) = self_val.as_enumerator() {
         if eref.state == FiberState::Created {
             return Ok(Value::enumerator(*vm.dup_enum(eref)));
@@ -103,8 +132,7 @@ fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     if self_val.expect_fiber("").is_ok() {
         return Err(RubyError::typeerr("Allocator undefined for Fiber."));
     }
-    let val = self_val.shallow_dup();
-    Ok(val)
+    Ok(self_val.shallow_dup())
 }
 
 /// eql?(other) -> bool
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 174cb89..5fe5540 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -99,6 +99,48 @@ impl Module {
         Module(self.get().shallow_dup())
     }
 
+    /// Make `self`, which is a shallow copy of `orig`, independent of `orig`:
+    /// give it tables of its own and copies of the modules which are mixed in to `orig`.
+    fn detach(mut self, orig: Module) {
+        let mut ext = (*orig.ext).clone();
+        ext.name = None;
+        self.ext = ClassRef::new(ext);
+        let mut last = self;
+        while let Some(upper) = last.upper {
+            if !upper.is_included() {
+                break;
+            }
+            let mut copy = upper.dup();
+            if copy.is_same(&orig) {
+                // The place of `orig` itself below the prepended modules.
+                copy.ext = self.ext;
+                copy.set_include(self);
+            }
+            last.upper = Some(copy);
+            last = copy;
+        }
+    }
+
+    /// Duplicate class or module `self`. The duplicate has no name, and has its own methods,
+    /// constants and singleton class.
+    pub(crate) fn copy(self) -> Module {
+        let copy = self.dup();
+        copy.detach(self);
+        if self.class().is_singleton() {
+            copy.set_class(self.class().copy_singleton(copy.into()));
+        }
+        copy
+    }
+
+    /// Duplicate singleton class `self` as a singleton class for `target`.
+    pub(crate) fn copy_singleton(self, target: Value) -> Module {
+        let mut copy = self.dup();
+        copy.set_class(BuiltinClass::class());
+        copy.detach(self);
+        copy.ext.singleton_for = Some(target);
+        copy
+    }
+
     #[inline(always)]
     /// Get a class of `self`.
     pub(crate) fn class(&self) -> Module {
-- 
2.43.0


From 901d744fdbf4307e72447a244fd8f6baf12cd80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 068/127] fix: instances of a subclass of a struct class
 panicked

---
 ruruby/src/builtin/structobj.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index fb20d80..4595c19 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -62,10 +62,22 @@ fn struct_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(class.into())
 }
 
+/// Get the members of the struct class of `self_val`, which may be an instance of its subclass.
+fn struct_members(vm: &VM, self_val: Value) -> Option<Value> {
+    let mut class = vm.globals.get_class(self_val);
+    loop {
+        match class.get_var(IdentId::get_id("/members")) {
+            Some(members) => return Some(members),
+            None => class = class.superclass()?,
+        }
+    }
+}
+
 fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let class = vm.globals.get_class(self_val);
-    let name = class.get_var(IdentId::get_id("/members")).unwrap();
-    let members = name.into_array();
+    let members = match struct_members(vm, self_val) {
+        Some(name) => name.into_array(),
+        None => return Err(RubyError::internal("No /members.")),
+    };
     if members.len() < args.len() {
         return Err(RubyError::argument("Struct size differs."));
     };
@@ -84,11 +96,7 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         Some(name) => inspect += &name,
         None => {}
     };
-    let name = match vm
-        .globals
-        .get_class(self_val)
-        .get_var(IdentId::get_id("/members"))
-    {
+    let name = match struct_members(vm, self_val) {
         Some(name) => name,
         None => return Err(RubyError::internal("No /members.")),
     };
-- 
2.43.0


From b3dabbd63cbd1ff5d46439c37e1de7224016fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:29 +0000
Subject: [PATCH 069/127] fix: String#to_s returned a copy of the string

---
 ruruby/src/builtin/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 1f3893a..987e1c8 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -89,8 +89,11 @@ fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    if self_val.rvalue().real_class() == BuiltinClass::string() {
+        return Ok(self_val);
+    }
     let self_ = self_val.as_rstring().unwrap();
-    Ok(Value::string(self_.to_s()))
+    Ok(Value::string_from_rstring(self_.clone()))
 }
 
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-- 
2.43.0


From 4016150bea4d7cced864bd36df6baf5e65e5d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 070/127] fix: else, elsif, when, in, rescue and ensure after a
 method call without arguments were read as arguments, yield took operators
 for arguments

---
 ruruby-parse/src/parser/expression.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index e1aea44..701766e 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -534,19 +534,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     fn parse_yield(&mut self) -> Result<Node, ParseErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() && self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
@@ -1044,6 +1037,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::In
+                        | Reserved::Rescue
+                        | Reserved::Ensure
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From 044882b96b7d1661882b44394c6b68fabac9402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:41 +0000
Subject: [PATCH 071/127] fix: gsub! made its receiver a plain String without
 variables and singleton methods

---
 ruruby/src/builtin/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 987e1c8..5fe8ad3 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -664,9 +664,9 @@ fn gsub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(res))
 }
 
-fn gsub_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn gsub_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let (res, changed) = gsub_main(vm, self_val, args)?;
-    *self_val.rvalue_mut() = RValue::new_string(&res);
+    *self_val.as_mut_rstring().unwrap() = RString::from(res);
     let res = if changed { self_val } else { Value::nil() };
     Ok(res)
 }
-- 
2.43.0


From 91824d4e505c1f7ab9d51474c54b5e0390e4e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:00 +0000
Subject: [PATCH 072/127] fix: == of hashes did not use == of the values

---
 ruruby/src/value/hash.rs      | 27 +++++++++++++++++++++++----
 ruruby/src/vm/executor/ops.rs | 13 ++++++++++++-
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index f51e1b5..6037e75 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -33,20 +33,39 @@ impl Hash for HashInfo {
 impl PartialEq for HashInfo {
     // This type of equality is used for comparison for keys of Hash.
     fn eq(&self, other: &Self) -> bool {
+        match self.pair_values(other) {
+            Some(pairs) => pairs.iter().all(|(v1, v2)| *v1 == *v2),
+            None => false,
+        }
+    }
+}
+
+impl HashInfo {
+    /// Pair the values of `self` with the values of `other` for the same keys.
+    /// Return None if the keys of `self` and `other` are not the same.
+    pub(crate) fn pair_values(&self, other: &Self) -> Option<Vec<(Value, Value)>> {
         match (self, other) {
-            (HashInfo::Map(map1), HashInfo::Map(map2)) => map1 == map2,
+            (HashInfo::Map(map1), HashInfo::Map(map2)) => {
+                if map1.len() != map2.len() {
+                    return None;
+                };
+                map1.iter()
+                    .map(|(k, v1)| map2.get(k).map(|v2| (*v1, *v2)))
+                    .collect()
+            }
             (HashInfo::IdentMap(map1), HashInfo::IdentMap(map2)) => {
                 if map1.len() != map2.len() {
-                    return false;
+                    return None;
                 };
                 let mut m1 = FxHashMap::default();
                 map1.iter().for_each(|(k, v)| {
                     m1.insert(HashKey(k.0), *v);
                 });
                 map2.iter()
-                    .all(|(k, v)| m1.get(&HashKey(k.0)).map_or(false, |v2| *v == *v2))
+                    .map(|(k, v2)| m1.get(&HashKey(k.0)).map(|v1| (*v1, *v2)))
+                    .collect()
             }
-            _ => false,
+            _ => None,
         }
     }
 }
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8c2e00a..1bcf20c 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -478,7 +478,18 @@ impl VM {
                     && self.eval_eq2(rhs.start, lhs.start)?
                     && self.eval_eq2(rhs.end, lhs.end)?
             }
-            (ObjKind::HASH, ObjKind::HASH) => *lhsr.rhash() == *rhsr.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => {
+                let pairs = match lhsr.rhash().pair_values(rhsr.rhash()) {
+                    Some(pairs) => pairs,
+                    None => return Ok(Some(false)),
+                };
+                for (l, r) in pairs {
+                    if !self.eval_eq2(r, l)? {
+                        return Ok(Some(false));
+                    }
+                }
+                true
+            }
             (ObjKind::REGEXP, ObjKind::REGEXP) => *lhsr.regexp() == *rhsr.regexp(),
             (ObjKind::TIME, ObjKind::TIME) => *lhsr.time() == *rhsr.time(),
             (ObjKind::INVALID, _) | (_, ObjKind::INVALID) => {
-- 
2.43.0


From d9d2c3050730c5f23111a1ffbd9d2b114fb7ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:41 +0000
Subject: [PATCH 073/127] fix: operators **, ^, ~, !, !~, +@ and -@ could not
 be defined

---
 ruruby-parse/src/parser.rs       | 25 ++++++++++++++++++++-----
 ruruby-parse/src/parser/lexer.rs |  6 ++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 3ff0d9d..e62401f 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -417,12 +417,27 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Parse operator which can be defined as a method.
     /// Return IdentId of the operator.
     fn parse_op_definable(&mut self, punct: &Punct) -> Result<IdentId, ParseErr> {
-        // TODO: must support
-        // ^
-        // **   ~   +@  -@   ` !  !~
+        // TODO: must support `
         match punct {
-            Punct::Plus => Ok(IdentId::_ADD),
-            Punct::Minus => Ok(IdentId::_SUB),
+            Punct::Plus => {
+                if self.lexer.consume_unary_mark() {
+                    Ok(IdentId::get_id("+@"))
+                } else {
+                    Ok(IdentId::_ADD)
+                }
+            }
+            Punct::Minus => {
+                if self.lexer.consume_unary_mark() {
+                    Ok(IdentId::get_id("-@"))
+                } else {
+                    Ok(IdentId::_SUB)
+                }
+            }
+            Punct::DMul => Ok(IdentId::_POW),
+            Punct::BitXor => Ok(IdentId::get_id("^")),
+            Punct::BitNot => Ok(IdentId::get_id("~")),
+            Punct::Not => Ok(IdentId::get_id("!")),
+            Punct::Unmatch => Ok(IdentId::get_id("!~")),
             Punct::Mul => Ok(IdentId::_MUL),
             Punct::Div => Ok(IdentId::_DIV),
             Punct::Rem => Ok(IdentId::_REM),
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index a338a82..c5af2c4 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -566,6 +566,12 @@ impl<'a> Lexer<'a> {
         ))
     }
 
+    /// Consume `@` of the method names `+@` and `-@`.
+    pub(crate) fn consume_unary_mark(&mut self) -> bool {
+        self.flush();
+        self.consume('@')
+    }
+
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(IdentId, Loc)>, ParseErr> {
         self.flush();
         self.token_start_pos = self.pos;
-- 
2.43.0


From 3031c2f6d7570b1336d17a4d37536969ec83381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:41 +0000
Subject: [PATCH 074/127] fix: a hash key that begins with an identifier lost
 it before an operator

---
 ruruby-parse/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index e62401f..df73fd6 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -89,6 +89,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn restore_state(&mut self, state: (usize, usize)) {
+        // tokens that were peeked after `state` are not the next ones any longer.
+        self.lexer.flush();
         self.lexer.restore_state(state);
     }
 
-- 
2.43.0


From 807f9a766d1350a0ef86a3ab40491648487599be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:41 +0000
Subject: [PATCH 075/127] fix: local variables were unknown in the
 interpolations of here documents

---
 ruruby-parse/src/parser/literals.rs | 55 +++++++++++++++--------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 87bf91b..65edd7f 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -129,38 +129,39 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             ParseMode::Single => {
                 Node::new_string(self.lexer.code[start..end].to_string(), Loc(start, end))
             }
-            ParseMode::Double => {
+            ParseMode::Double | ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
-                let tok = parser.lexer.read_string_literal_double(None, None, 0)?;
-                let loc = tok.loc();
-                match tok.kind {
-                    TokenKind::StringLit(s) => Node::new_string(s, loc),
-                    TokenKind::OpenString(s, term, level) => {
-                        return parser.parse_interporated_string_literal(&s, term, level);
-                    }
-                    _ => unreachable!(),
-                }
-            }
-            ParseMode::Command => {
-                let mut parser = self.new_with_range(start, end);
-                let tok = parser.lexer.read_command_literal(None, None, 0)?;
-                let loc = tok.loc();
-                match tok.kind {
-                    TokenKind::CommandLit(s) => {
-                        let content = Node::new_string(s, loc);
-                        Node::new_command(content)
-                    }
-                    TokenKind::OpenString(s, term, level) => {
-                        let content = parser.parse_interporated_string_literal(&s, term, level)?;
-                        Node::new_command(content)
-                    }
-                    _ => unreachable!(),
-                }
+                // the body belongs to the context of the here document.
+                std::mem::swap(&mut parser.context_stack, &mut self.context_stack);
+                let res = parser.parse_heredocument_body(mode);
+                std::mem::swap(&mut parser.context_stack, &mut self.context_stack);
+                res?
             }
         };
         Ok(node)
     }
 
+    fn parse_heredocument_body(&mut self, mode: ParseMode) -> Result<Node, ParseErr> {
+        let tok = if mode == ParseMode::Command {
+            self.lexer.read_command_literal(None, None, 0)?
+        } else {
+            self.lexer.read_string_literal_double(None, None, 0)?
+        };
+        let loc = tok.loc();
+        let content = match tok.kind {
+            TokenKind::StringLit(s) | TokenKind::CommandLit(s) => Node::new_string(s, loc),
+            TokenKind::OpenString(s, term, level) | TokenKind::OpenCommand(s, term, level) => {
+                self.parse_interporated_string_literal(&s, term, level)?
+            }
+            _ => unreachable!(),
+        };
+        if mode == ParseMode::Command {
+            Ok(Node::new_command(content))
+        } else {
+            Ok(content)
+        }
+    }
+
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, ParseErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
@@ -313,7 +314,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             path: self.path.clone(),
             prev_loc: Loc(0, 0),
             context_stack: vec![],
-            extern_context: None,
+            extern_context: self.extern_context,
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
-- 
2.43.0


From f61c9ff0b109135b24c5eff2b36d3bb7ad6a6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:30 +0000
Subject: [PATCH 076/127] fix: multiple assignments were SyntaxErrors within
 the right side of an assignment, parentheses of an array, and the like

---
 ruruby-parse/src/parser/expression.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 701766e..badfd6c 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -8,26 +8,45 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         self.peek()?;
         let loc = self.loc();
         let mut nodes = vec![];
-
+        // What is suppressed outside is not within statements.
+        let old = self.save_suppress();
         loop {
             if self.peek()?.check_stmt_end() {
+                self.restore_suppress(old);
                 let node = Node::new_comp_stmt(nodes, loc);
                 return Ok(node);
             }
 
-            let old = self.suppress_bitor;
-            self.suppress_bitor = false;
             let node = self.parse_stmt();
-            self.suppress_bitor = old;
             nodes.push(node?);
             if !self.consume_term()? {
                 break;
             }
         }
+        self.restore_suppress(old);
         let node = Node::new_comp_stmt(nodes, loc);
         Ok(node)
     }
 
+    /// Lift all suppressions, and return what they were.
+    fn save_suppress(&mut self) -> (bool, bool, bool, bool) {
+        let old = (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+            self.suppress_bitor,
+        );
+        self.restore_suppress((false, false, false, false));
+        old
+    }
+
+    fn restore_suppress(&mut self, old: (bool, bool, bool, bool)) {
+        self.suppress_acc_assign = old.0;
+        self.suppress_mul_assign = old.1;
+        self.suppress_do_block = old.2;
+        self.suppress_bitor = old.3;
+    }
+
     fn parse_stmt(&mut self) -> Result<Node, ParseErr> {
         // STMT : EXPR
         // | ALIAS-STMT
-- 
2.43.0


From 075777f31d993424693a881fdd41c294ea7dd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 077/127] fix: methods could not be called on the value of
 yield

---
 ruruby-parse/src/parser/expression.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index badfd6c..253dafc 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -520,13 +520,14 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, ParseErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-- 
2.43.0


From cdb9477c8b539af2a251bfda1abb8dcb7d7dc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:05 +0000
Subject: [PATCH 078/127] fix: a rescue modifier after an assignment applied to
 the assignment, not to its right side

---
 ruruby-parse/src/parser/expression.rs | 29 +++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 253dafc..e3fb4db 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -172,10 +172,33 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_mul_assign_rhs_if_allowed(&mut self) -> Result<Vec<Node>, ParseErr> {
         if self.suppress_mul_assign {
             let node = vec![self.parse_arg()?];
-            Ok(node)
+            self.parse_mrhs_rescue(node)
         } else {
             let mrhs = self.parse_mul_assign_rhs(None)?;
-            Ok(mrhs)
+            self.parse_mrhs_rescue(mrhs)
+        }
+    }
+
+    /// Parse a rescue modifier of rhs of an assignment. cf: a = b rescue c
+    fn parse_mrhs_rescue(&mut self, mut mrhs: Vec<Node>) -> Result<Vec<Node>, ParseErr> {
+        if mrhs.len() == 1 && !mrhs[0].is_splat() {
+            let rhs = mrhs.pop().unwrap();
+            mrhs.push(self.parse_rhs_rescue(rhs)?);
+        }
+        Ok(mrhs)
+    }
+
+    fn parse_rhs_rescue(&mut self, rhs: Node) -> Result<Node, ParseErr> {
+        if self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
+            let rescue = self.parse_arg()?;
+            Ok(Node::new_begin(
+                rhs,
+                vec![RescueEntry::new_postfix(rescue)],
+                None,
+                None,
+            ))
+        } else {
+            Ok(rhs)
         }
     }
 
@@ -239,6 +262,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         if self.consume_punct_no_term(Punct::Assign)? {
             self.check_lhs(&lhs)?;
             let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mrhs_rescue(mrhs)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -481,6 +505,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_assign_op(&mut self, mut lhs: Node, op: BinOp) -> Result<Node, ParseErr> {
         self.get()?;
         let rhs = self.parse_arg()?;
+        let rhs = self.parse_rhs_rescue(rhs)?;
         self.check_lhs(&lhs)?;
         match (op, &lhs.kind) {
             (BinOp::LOr | BinOp::LAnd, NodeKind::Ident(id)) => {
-- 
2.43.0


From b1455d13d3577dc699812733e200a042dca8f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:25 +0000
Subject: [PATCH 079/127] fix: arguments without parentheses could not begin
 with !, ~ or a character literal

---
 ruruby-parse/src/parser/expression.rs | 10 ++++++++--
 ruruby-parse/src/parser/lexer.rs      | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index e3fb4db..06ac00e 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -1059,9 +1059,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow => true,
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
+                    Punct::Question => self.lexer.is_char_literal(&tok),
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index c5af2c4..821ea53 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -184,6 +184,22 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if the token `?` is the beginning of a character literal.
+    pub(crate) fn is_char_literal(&self, tok: &Token) -> bool {
+        let mut iter = match self.code.get(tok.loc.1 + 1..) {
+            Some(s) => s.chars(),
+            None => return false,
+        };
+        match iter.next() {
+            Some(ch) if ch.is_ascii_whitespace() => false,
+            Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' => {
+                !matches!(iter.next(), Some(c) if c.is_alphanumeric() || c == '_')
+            }
+            Some(_) => true,
+            None => false,
+        }
+    }
+
     /// Get token as a regular expression.
     pub(crate) fn get_regexp(&mut self) -> Result<Token, ParseErr> {
         match self.read_regexp_sub()? {
-- 
2.43.0


From 02b20db6c0b3ee0d4f87c61ba66c461f10a7119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 080/127] fix: a lexing error of a token that had been looked
 at in advance was swallowed

---
 ruruby-parse/src/parser/lexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 821ea53..fdbe515 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -132,8 +132,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -143,14 +144,14 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let res = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 5fbe1ddeee3b7bd7921675d8b47fe91ec2be0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 081/127] fix: number literals with a leading 0 were decimal,
 and those with a radix prefix in capitals, 0o or 0d were SyntaxErrors

---
 ruruby-parse/src/parser/lexer.rs | 41 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index fdbe515..5e666ab 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -629,10 +629,16 @@ impl<'a> Lexer<'a> {
     /// Read number literal.
     fn read_number_literal(&mut self, ch: char) -> Result<Token, ParseErr> {
         if ch == '0' {
-            if self.consume('x') {
+            if self.consume('x') || self.consume('X') {
                 return self.read_hex_number();
-            } else if self.consume('b') {
-                return self.read_bin_number();
+            } else if self.consume('b') || self.consume('B') {
+                return self.read_radix_number(2);
+            } else if self.consume('o') || self.consume('O') {
+                return self.read_radix_number(8);
+            } else if self.consume('d') || self.consume('D') {
+                return self.read_radix_number(10);
+            } else if matches!(self.peek(), Some('0'..='9') | Some('_')) {
+                return self.read_radix_number(8);
             }
         };
         let mut s = ch.to_string();
@@ -719,25 +725,20 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    /// Read binary number.
-    fn read_bin_number(&mut self) -> Result<Token, ParseErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
-            Some(_) => {
-                return Err(self.error_unexpected(self.pos));
-            }
-            None => return Err(Self::error_eof(self.pos)),
-        };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+    /// Read a number of the given radix (<= 10).
+    fn read_radix_number(&mut self, radix: u32) -> Result<Token, ParseErr> {
+        let start_pos = self.pos;
+        while matches!(self.peek(), Some('0'..='9') | Some('_')) {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        let s = self.code[start_pos..self.pos].replace('_', "");
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 4d154e233e75b450ea0bb15c77d6ab3ea4d231a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 082/127] fix: single-quoted strings dropped a backslash before
 a newline, and %q did not unescape its own delimiters

---
 ruruby-parse/src/parser/lexer.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 5e666ab..2507b41 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -852,22 +852,12 @@ impl<'a> Lexer<'a> {
                     }
                 }
                 '\\' => {
-                    // continuation line
-                    if self.consume_newline() {
-                        continue;
-                    };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
-                    } else if c == '\\' {
-                        s.push('\\');
-                        if escape_backslash {
-                            s.push('\\');
-                        }
-                    } else {
+                    // only the delimiters and the backslash can be escaped.
+                    if escape_backslash || !(c == '\\' || c == term || open == Some(c)) {
                         s.push('\\');
-                        s.push(c);
                     }
+                    s.push(c);
                 }
                 c => s.push(c),
             }
-- 
2.43.0


From 28882fd7bcade747c99fc2be70ccbb782dfc94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 083/127] fix: escaped white space separated the words of %w
 and %i, and tabs did not

---
 ruruby-parse/src/parser/lexer.rs    | 43 +++++++++++++++++++++++++++++
 ruruby-parse/src/parser/literals.rs | 27 ++++++------------
 ruruby-parse/src/token.rs           |  5 ++++
 3 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 2507b41..1cb6201 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -864,6 +864,41 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Read words of %w{..} or %i{..}, separated by white space.
+    fn read_words(&mut self, open: Option<char>, term: char) -> Result<Vec<String>, ParseErr> {
+        let mut words = vec![];
+        let mut word = "".to_string();
+        let mut level = 0;
+        loop {
+            let ch = self.get()?;
+            let is_term = ch == term && level == 0;
+            if is_term || ch.is_ascii_whitespace() {
+                if !word.is_empty() {
+                    words.push(std::mem::take(&mut word));
+                }
+                if is_term {
+                    return Ok(words);
+                }
+                continue;
+            }
+            match ch {
+                '\\' => {
+                    let c = self.get()?;
+                    // a separator can be escaped as well as the delimiters and the backslash.
+                    if !(c == '\\' || c == term || open == Some(c) || c.is_ascii_whitespace()) {
+                        word.push('\\');
+                    }
+                    word.push(c);
+                    continue;
+                }
+                c if open == Some(c) => level += 1,
+                c if c == term => level -= 1,
+                _ => {}
+            }
+            word.push(ch);
+        }
+    }
+
     /// Read char literal.
     pub(crate) fn read_char_literal(&mut self) -> Result<char, ParseErr> {
         let c = self.get()?;
@@ -997,6 +1032,10 @@ impl<'a> Lexer<'a> {
                 let s = self.read_string_literal_single(open, term, true)?;
                 Ok(self.new_percent('r', s))
             }
+            Some(kind) if kind == 'w' || kind == 'i' => {
+                let words = self.read_words(open, term)?;
+                Ok(self.new_percent_words(kind, words))
+            }
             Some(kind) => {
                 let s = self.read_string_literal_single(open, term, false)?;
                 Ok(self.new_percent(kind, s))
@@ -1381,6 +1420,10 @@ impl<'a> Lexer<'a> {
         Token::new_percent(kind, content, self.cur_loc())
     }
 
+    fn new_percent_words(&self, kind: char, words: Vec<String>) -> Token {
+        Token::new_percent_words(kind, words, self.cur_loc())
+    }
+
     fn new_line_term(&self) -> Token {
         Annot::new(TokenKind::LineTerm, self.cur_loc())
     }
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 65edd7f..169ded6 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -85,30 +85,21 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let loc = tok.loc;
         if let TokenKind::PercentNotation(kind, content) = tok.kind {
             match kind {
-                // TODO: backslash-space must be valid in %w and %i.
-                // e.g. "foo\ bar" => "foo bar"
-                'w' => {
-                    let ary = content
-                        .split(|c| c == ' ' || c == '\n')
-                        .filter(|x| x != &"")
-                        .map(|x| Node::new_string(x.to_string(), loc))
-                        .collect();
-                    Ok(Node::new_array(ary, tok.loc))
-                }
-                'i' => {
-                    let ary = content
-                        .split(|c| c == ' ' || c == '\n')
-                        .filter(|x| x != &"")
-                        .map(|x| Node::new_symbol(IdentId::get_id(x), loc))
-                        .collect();
-                    Ok(Node::new_array(ary, tok.loc))
-                }
                 'r' => {
                     let ary = vec![Node::new_string(content + "-", loc)];
                     Ok(Node::new_regexp(ary, tok.loc))
                 }
                 _ => Err(error_unexpected(loc, "Unsupported % notation.")),
             }
+        } else if let TokenKind::PercentWords(kind, words) = tok.kind {
+            let ary = words
+                .into_iter()
+                .map(|word| match kind {
+                    'w' => Node::new_string(word, loc),
+                    _ => Node::new_symbol(IdentId::get_id(&word), loc),
+                })
+                .collect();
+            Ok(Node::new_array(ary, loc))
         } else if let TokenKind::StringLit(s) = tok.kind {
             Ok(Node::new_string(s, loc))
         } else if let TokenKind::OpenString(s, term, level) = tok.kind {
diff --git a/ruruby-parse/src/token.rs b/ruruby-parse/src/token.rs
index 78005da..de105ef 100644
--- a/ruruby-parse/src/token.rs
+++ b/ruruby-parse/src/token.rs
@@ -58,6 +58,7 @@ pub(crate) enum TokenKind {
     OpenRegex(String),
     OpenCommand(String, Option<char>, usize),
     PercentNotation(char, String),
+    PercentWords(char, Vec<String>),
     LineTerm,
 }
 
@@ -252,6 +253,10 @@ impl Token {
         Annot::new(TokenKind::PercentNotation(kind, content), loc)
     }
 
+    pub(crate) fn new_percent_words(kind: char, words: Vec<String>, loc: Loc) -> Self {
+        Annot::new(TokenKind::PercentWords(kind, words), loc)
+    }
+
     pub(crate) fn new_punct(punct: Punct, loc: Loc) -> Self {
         Annot::new(TokenKind::Punct(punct), loc)
     }
-- 
2.43.0


From 00259a15fb8f7581374e4b256ba8afe6624c223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:44 +0000
Subject: [PATCH 084/127] fix: symbols whose names need quotes were inspected
 without them

---
 ruruby/src/builtin/symbol.rs | 36 +++++++++++++++++++++++++++++++++++-
 ruruby/src/vm/executor.rs    |  2 +-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/symbol.rs b/ruruby/src/builtin/symbol.rs
index 0548b48..4b5cc8e 100644
--- a/ruruby/src/builtin/symbol.rs
+++ b/ruruby/src/builtin/symbol.rs
@@ -35,10 +35,44 @@ fn to_proc(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let s = format!(":{:?}", self_val.as_symbol().unwrap());
+    let s = symbol_inspect(self_val.as_symbol().unwrap());
     Ok(Value::string(s))
 }
 
+/// Names which need no quotes in a symbol literal are shown as they are.
+pub(crate) fn symbol_inspect(id: IdentId) -> String {
+    let name = id.get_name();
+    if is_simple_name(&name) {
+        format!(":{}", name)
+    } else {
+        format!(":{}", RString::from(name.as_str()).inspect())
+    }
+}
+
+fn is_simple_name(name: &str) -> bool {
+    const OPERATORS: [&str; 28] = [
+        "+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=",
+        "!", "~", "+@", "-@", "[]", "[]=", "<<", ">>", "&", "|", "^", "`",
+    ];
+    if OPERATORS.contains(&name) {
+        return true;
+    }
+    let body = if let Some(body) = name.strip_prefix("@@") {
+        body
+    } else if let Some(body) = name.strip_prefix('@') {
+        body
+    } else if let Some(body) = name.strip_prefix('$') {
+        body
+    } else {
+        name.strip_suffix(['?', '!', '=']).unwrap_or(name)
+    };
+    let mut chars = body.chars();
+    match chars.next() {
+        Some(c) if c == '_' || c.is_alphabetic() => chars.all(|c| c == '_' || c.is_alphanumeric()),
+        _ => false,
+    }
+}
+
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let lhs = self_val.as_symbol().unwrap().get_name();
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ff72bad..bd83671 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -789,7 +789,7 @@ impl VM {
             RV::False => "false".to_string(),
             RV::Integer(i) => i.to_string(),
             RV::Float(f) => float_to_s(f),
-            RV::Symbol(sym) => format!(":{:?}", sym),
+            RV::Symbol(sym) => crate::builtin::symbol::symbol_inspect(sym),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => "[Invalid]".to_string(),
                 ObjKind::STRING => oref.string().inspect(),
-- 
2.43.0


From 908feb667b7b07c6049942f7cdcd272fae018258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:45 +0000
Subject: [PATCH 085/127] fix: $10 and later captures read another capture

---
 ruruby-parse/src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 1cb6201..21d5ac1 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -434,7 +434,9 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id += ch as u32 - '0' as u32;
+                id = id
+                    .saturating_mul(10)
+                    .saturating_add(ch as u32 - '0' as u32);
             }
             Ok(self.new_special_var(id as usize + 100))
         } else {
-- 
2.43.0


From 55243393d75fefc54f26685cc8a26478099af55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:45 +0000
Subject: [PATCH 086/127] fix: #@@a, #@a and #$1 in strings and regexps
 panicked, and # before other @ or $ was not literal

---
 ruruby-parse/src/parser/lexer.rs    | 21 +++++++++++++++++++--
 ruruby-parse/src/parser/literals.rs |  2 ++
 ruruby/src/codegen.rs               |  8 ++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 21d5ac1..867c8c5 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -773,6 +773,23 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if an interpolation (#{..}, #@a, #@@a, #$a, #$1) follows '#'.
+    fn is_interpolation(&self) -> bool {
+        let rest = &self.code[self.pos..];
+        let is_name = |s: &str| {
+            matches!(s.chars().next(), Some(ch) if ch.is_alphabetic() || ch == '_')
+        };
+        if rest.starts_with('{') {
+            true
+        } else if let Some(name) = rest.strip_prefix('$') {
+            is_name(name) || name.starts_with(|ch: char| matches!(ch, '1'..='9' | '&' | '\''))
+        } else if let Some(name) = rest.strip_prefix('@') {
+            is_name(name.strip_prefix('@').unwrap_or(name))
+        } else {
+            false
+        }
+    }
+
     /// Read interpolation string with `open` as opening char and `term` as a terminator.
     fn read_interpolate(
         &mut self,
@@ -814,7 +831,7 @@ impl<'a> Lexer<'a> {
                 }
                 '#' => match self.peek() {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
+                    Some(_) if self.is_interpolation() => {
                         return Ok(InterpolateState::NewInterpolation(s, level))
                     }
                     _ => s.push('#'),
@@ -985,7 +1002,7 @@ impl<'a> Lexer<'a> {
                     };
                 }
                 '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
+                    Some(_) if self.is_interpolation() => {
                         return Ok(InterpolateState::NewInterpolation(s, 0))
                     }
                     _ => s.push('#'),
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 169ded6..2bd1e94 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -291,6 +291,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             let node = match &tok.kind {
                 TokenKind::GlobalVar(s) => Node::new_global_var(s, loc),
                 TokenKind::InstanceVar(s) => Node::new_instance_var(s, loc),
+                TokenKind::ClassVar(s) => Node::new_class_var(s, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(*id, loc),
                 _ => unreachable!("{:?}", tok),
             };
             nodes.push(node);
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index abf57a7..a0bbb7d 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1065,12 +1065,11 @@ impl Codegen {
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        NodeKind::GlobalVar(id) => {
-                            iseq.gen_get_global_var(id);
+                        _ => {
+                            self.gen(globals, iseq, node, true)?;
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        _ => unimplemented!("Illegal arguments in Nodekind::InterporatedString."),
                     }
                 }
                 iseq.gen_concat(c);
@@ -1096,7 +1095,8 @@ impl Codegen {
                                 iseq.push(Inst::TO_S);
                             }
                             _ => {
-                                unimplemented!("Illegal arguments in Nodekind::InterporatedString.")
+                                self.gen(globals, iseq, node, true)?;
+                                iseq.push(Inst::TO_S);
                             }
                         }
                     }
-- 
2.43.0


From 1afbb624b7141406d93ae3a104a33d8db542db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 087/127] fix: nested delimiters in % literals ended the
 literal after an interpolation

---
 ruruby-parse/src/parser/literals.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 2bd1e94..3befa36 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -36,15 +36,23 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         &mut self,
         s: &str,
         delimiter: Option<char>,
-        level: usize,
+        mut level: usize,
     ) -> Result<Node, ParseErr> {
+        // nested pairs of delimiters belong to the content.
+        let open = match delimiter {
+            Some(')') => Some('('),
+            Some('}') => Some('{'),
+            Some(']') => Some('['),
+            Some('>') => Some('<'),
+            _ => None,
+        };
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s.to_string(), start_loc)];
         loop {
             self.parse_template(&mut nodes)?;
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut s) => {
@@ -72,7 +80,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     }
                     nodes.push(Node::new_string(s.clone(), loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.clone(), loc));
                 }
                 _ => unreachable!("{:?}", tok),
-- 
2.43.0


From cc7819c46fca95ed8b79267a1fb3f584ea385839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:25 +0000
Subject: [PATCH 088/127] fix: \u{..} and \x with one digit were SyntaxErrors

---
 ruruby-parse/src/parser/lexer.rs | 38 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 867c8c5..9cf0143 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -827,7 +827,11 @@ impl<'a> Lexer<'a> {
                     if self.consume_newline() {
                         continue;
                     };
-                    s.push(self.read_escaped_char()?);
+                    if self.code[self.pos..].starts_with("u{") {
+                        self.read_unicode_list(&mut s)?;
+                    } else {
+                        s.push(self.read_escaped_char()?);
+                    }
                 }
                 '#' => match self.peek() {
                     // string interpolation
@@ -1062,6 +1066,30 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Read code points of '\u{..}'.
+    fn read_unicode_list(&mut self, s: &mut String) -> Result<(), ParseErr> {
+        self.get()?;
+        self.get()?;
+        let mut len = 0;
+        loop {
+            while matches!(self.peek(), Some(' ') | Some('\t')) {
+                self.get()?;
+            }
+            if len != 0 && self.consume('}') {
+                return Ok(());
+            }
+            let mut code = self.expect_hex()?;
+            while let Some(digit) = self.consume_hex() {
+                code = code.saturating_mul(16).saturating_add(digit);
+            }
+            match std::char::from_u32(code) {
+                Some(ch) => s.push(ch),
+                None => return Err(Self::error_parse("Invalid Unicode codepoint.", self.pos)),
+            }
+            len += 1;
+        }
+    }
+
     fn read_escaped_char(&mut self) -> Result<char, ParseErr> {
         let ch = match self.get()? {
             c @ '\'' | c @ '"' | c @ '?' | c @ '\\' => c,
@@ -1075,9 +1103,11 @@ impl<'a> Lexer<'a> {
             't' => '\x09',
             'v' => '\x0b',
             'x' => {
-                let c1 = self.expect_hex()?;
-                let c2 = self.expect_hex()?;
-                match std::char::from_u32(c1 * 16 + c2) {
+                let mut code = self.expect_hex()?;
+                if let Some(c2) = self.consume_hex() {
+                    code = code * 16 + c2;
+                }
+                match std::char::from_u32(code) {
                     Some(c) => c,
                     None => return Err(self.error_unexpected(self.pos)),
                 }
-- 
2.43.0


From c2d2032573b13ac761e8bb765a43609336c1c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 089/127] fix: return, break and next without a value could not
 precede while, until, and, or or

---
 ruruby-parse/src/parser/flow_control.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 4213a98..c4b165a 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -161,8 +161,17 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let tok = self.peek_no_term()?;
         // TODO: This is not correct.
         if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
+            || matches!(
+                tok.kind,
+                TokenKind::Reserved(
+                    Reserved::If
+                        | Reserved::Unless
+                        | Reserved::While
+                        | Reserved::Until
+                        | Reserved::And
+                        | Reserved::Or
+                )
+            )
             || tok.check_stmt_end()
         {
             let val = Node::new_nil(loc);
-- 
2.43.0


From bde552aab2bd2b1fac1f47add9b587d31b6f3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:17 +0000
Subject: [PATCH 090/127] fix: =begin/=end comments and __END__ were not
 understood

---
 ruruby-parse/src/parser/lexer.rs | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 9cf0143..b46896f 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -232,6 +232,12 @@ impl<'a> Lexer<'a> {
             if let Some(tok) = self.skip_whitespace() {
                 return Ok(tok);
             };
+            if self.skip_embedded_document()? {
+                continue;
+            }
+            if self.is_end_mark() {
+                return Ok(self.new_eof());
+            }
             let pos = self.pos;
             let ch = match self.get() {
                 Ok(ch) => ch,
@@ -1381,6 +1387,36 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    fn is_bol(&self) -> bool {
+        self.pos == 0 || self.code.as_bytes()[self.pos - 1] == b'\n'
+    }
+
+    /// Examine if the current line is `__END__`, which ends the program.
+    fn is_end_mark(&self) -> bool {
+        let line = self.code[self.pos..].lines().next();
+        self.is_bol() && line == Some("__END__")
+    }
+
+    /// Skip lines from `=begin` to `=end`.
+    /// Return true if skipped.
+    fn skip_embedded_document(&mut self) -> Result<bool, ParseErr> {
+        let is_mark = |line: &str, mark: &str| match line.strip_prefix(mark) {
+            Some(rest) => rest.is_empty() || rest.starts_with(|ch: char| ch.is_ascii_whitespace()),
+            None => false,
+        };
+        if !self.is_bol() || !is_mark(&self.code[self.pos..], "=begin") {
+            return Ok(false);
+        }
+        loop {
+            self.goto_eol();
+            self.get()?;
+            if is_mark(&self.code[self.pos..], "=end") {
+                self.goto_eol();
+                return Ok(true);
+            }
+        }
+    }
+
     fn goto_eol(&mut self) {
         loop {
             match self.peek() {
-- 
2.43.0


From 7031becbb9a8095a0019151527afb940ccc8663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:40 +0000
Subject: [PATCH 091/127] fix: <<~ here documents kept their indentation

---
 ruruby-parse/src/parser/lexer.rs    | 83 +++++++++++++++++++++++++++--
 ruruby-parse/src/parser/literals.rs | 11 ++--
 2 files changed, 85 insertions(+), 9 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index b46896f..5794b5e 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -16,6 +16,8 @@ pub struct Lexer<'a> {
     token_start_pos: usize,
     pos: usize,
     heredoc_pos: usize,
+    /// width of the indentation to be removed from each line of a here document.
+    dedent: usize,
     buf: Option<Token>,
     buf_skip_lt: Option<Token>,
     pub code: &'a str,
@@ -50,17 +52,19 @@ impl<'a> Lexer<'a> {
             token_start_pos: 0,
             pos: 0,
             heredoc_pos: 0,
+            dedent: 0,
             buf: None,
             buf_skip_lt: None,
             code,
         }
     }
 
-    pub(crate) fn new_with_range(&self, pos: usize, end: usize) -> Self {
+    pub(crate) fn new_with_range(&self, pos: usize, end: usize, dedent: usize) -> Self {
         Lexer {
             token_start_pos: pos,
             pos,
             heredoc_pos: 0,
+            dedent,
             buf: None,
             buf_skip_lt: None,
             code: &self.code[..end],
@@ -805,6 +809,9 @@ impl<'a> Lexer<'a> {
     ) -> Result<InterpolateState, ParseErr> {
         let mut s = "".to_string();
         loop {
+            if term.is_none() && self.dedent != 0 && self.is_bol() {
+                self.pos += Self::indent_len(&self.code[self.pos..], self.dedent);
+            }
             let ch = match self.get() {
                 Ok(c) => c,
                 Err(err) => {
@@ -1140,12 +1147,74 @@ impl<'a> Lexer<'a> {
         Ok(ch)
     }
 
-    pub(crate) fn read_heredocument(&mut self) -> Result<(ParseMode, usize, usize), ParseErr> {
+    /// Width of the white space at the beginning of `line`.
+    fn indent_width(line: &str) -> usize {
+        let mut width = 0;
+        for ch in line.chars() {
+            match ch {
+                ' ' => width += 1,
+                '\t' => width = (width / 8 + 1) * 8,
+                _ => break,
+            }
+        }
+        width
+    }
+
+    /// Length of the white space at the beginning of `line` within `width` columns.
+    fn indent_len(line: &str, width: usize) -> usize {
+        line.bytes()
+            .enumerate()
+            .position(|(i, ch)| {
+                !(ch == b' ' || ch == b'\t') || Self::indent_width(&line[..i + 1]) > width
+            })
+            .unwrap_or(line.len())
+    }
+
+    /// Width of the indentation common to all lines but blank ones.
+    fn common_indent(text: &str, interpolate: bool) -> usize {
+        let mut indent = None;
+        // nesting of braces, while the line begins within an interpolation.
+        let mut level = 0;
+        for line in text.lines() {
+            if level == 0 && !line.trim().is_empty() {
+                let width = Self::indent_width(line);
+                indent = Some(indent.map_or(width, |i| std::cmp::min(i, width)));
+            }
+            let mut chars = line.chars().peekable();
+            while let Some(ch) = chars.next() {
+                match ch {
+                    '\\' => {
+                        chars.next();
+                    }
+                    '#' if interpolate && level == 0 && chars.peek() == Some(&'{') => {
+                        chars.next();
+                        level = 1;
+                    }
+                    '{' if level != 0 => level += 1,
+                    '}' if level != 0 => level -= 1,
+                    _ => {}
+                }
+            }
+        }
+        indent.unwrap_or(0)
+    }
+
+    /// Remove the indentation of `width` columns from each line.
+    pub(crate) fn dedent_lines(text: &str, width: usize) -> String {
+        text.split_inclusive('\n')
+            .map(|line| &line[Self::indent_len(line, width)..])
+            .collect()
+    }
+
+    /// Read a here document.
+    /// Return (mode, start, end, width of the indentation to be removed).
+    pub(crate) fn read_heredocument(
+        &mut self,
+    ) -> Result<(ParseMode, usize, usize, usize), ParseErr> {
         #[derive(Clone, PartialEq)]
         enum TermMode {
             Normal,
             AllowIndent,
-            // TODO currently, not supported.
             Squiggly,
         }
 
@@ -1217,7 +1286,13 @@ impl<'a> Lexer<'a> {
         }
         self.heredoc_pos = self.pos;
         self.restore_state(save);
-        Ok((parse_mode, heredoc_start, heredoc_end))
+        let dedent = if term_mode == TermMode::Squiggly {
+            let text = &self.code[heredoc_start..heredoc_end];
+            Self::common_indent(text, parse_mode != ParseMode::Single)
+        } else {
+            0
+        };
+        Ok((parse_mode, heredoc_start, heredoc_end, dedent))
     }
 }
 
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 3befa36..fde432a 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -124,13 +124,14 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             let loc = self.prev_loc();
             return Err(error_unexpected(loc, "Unexpectd <<."));
         }
-        let (mode, start, end) = self.lexer.read_heredocument()?;
+        let (mode, start, end, dedent) = self.lexer.read_heredocument()?;
         let node = match mode {
             ParseMode::Single => {
-                Node::new_string(self.lexer.code[start..end].to_string(), Loc(start, end))
+                let text = Lexer::dedent_lines(&self.lexer.code[start..end], dedent);
+                Node::new_string(text, Loc(start, end))
             }
             ParseMode::Double | ParseMode::Command => {
-                let mut parser = self.new_with_range(start, end);
+                let mut parser = self.new_with_range(start, end, dedent);
                 // the body belongs to the context of the here document.
                 std::mem::swap(&mut parser.context_stack, &mut self.context_stack);
                 let res = parser.parse_heredocument_body(mode);
@@ -309,8 +310,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         Ok(())
     }
 
-    fn new_with_range(&self, pos: usize, end: usize) -> Self {
-        let lexer = self.lexer.new_with_range(pos, end);
+    fn new_with_range(&self, pos: usize, end: usize, dedent: usize) -> Self {
+        let lexer = self.lexer.new_with_range(pos, end, dedent);
         Parser {
             lexer,
             path: self.path.clone(),
-- 
2.43.0


From a3d3f00c0aaa96a8cbc2f974a4442d4911f52ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:36 +0000
Subject: [PATCH 092/127] fix: <=> had the precedence of < instead of that of
 ==

---
 ruruby-parse/src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 06ac00e..e513754 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -331,6 +331,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         if self.consume_punct_no_term(Punct::Eq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Eq, lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Cmp, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Ne)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Ne, lhs, rhs))
@@ -368,9 +371,6 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Lt, lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Cmp, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From c612ccd0efde9857113292b7452797df15744d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:17 +0000
Subject: [PATCH 093/127] fix: a minus sign after **, ! or ~ panicked unless a
 number followed

---
 ruruby-parse/src/parser/expression.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index e513754..20e141e 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -519,25 +519,37 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_exponent(&mut self) -> Result<Node, ParseErr> {
         let lhs = self.parse_unary()?;
         if self.consume_punct_no_term(Punct::DMul)? {
-            let rhs = self.parse_exponent()?;
+            let rhs = if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+                self.parse_unary_minus()?
+            } else {
+                self.parse_exponent()?
+            };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
             Ok(lhs)
         }
     }
 
+    fn parse_unary_operand(&mut self) -> Result<Node, ParseErr> {
+        if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+            self.parse_unary_minus()
+        } else {
+            self.parse_unary()
+        }
+    }
+
     fn parse_unary(&mut self) -> Result<Node, ParseErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Not, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else {
             self.parse_method_call()
-- 
2.43.0


From ce41333e6ae58bc82949d1f736eabe69d8649b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:13 +0000
Subject: [PATCH 094/127] fix: symbols of global variables were SyntaxErrors

---
 ruruby-parse/src/parser/lexer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 5794b5e..b8ec1c5 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -606,9 +606,11 @@ impl<'a> Lexer<'a> {
         self.token_start_pos = self.pos;
         let ch = self.peek().ok_or_else(|| self.error_unexpected(self.pos))?;
         match ch {
-            '@' => {
-                self.consume('@');
-                self.consume('@');
+            '@' | '$' => {
+                if !self.consume('$') {
+                    self.consume('@');
+                    self.consume('@');
+                }
                 let ch = self.get()?;
                 if !ch.is_ascii_alphabetic() && ch != '_' {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
-- 
2.43.0


From 6359af1058f5fdb4f61f905feacd69cf95e524df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:15 +0000
Subject: [PATCH 095/127] fix: symbols with names outside ASCII, which the
 parser reads in quotes only, were inspected without

---
 ruruby/src/builtin/symbol.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/symbol.rs b/ruruby/src/builtin/symbol.rs
index 4b5cc8e..d336f86 100644
--- a/ruruby/src/builtin/symbol.rs
+++ b/ruruby/src/builtin/symbol.rs
@@ -39,7 +39,7 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(s))
 }
 
-/// Names which need no quotes in a symbol literal are shown as they are.
+/// Names which need no quotes (the parser reads ASCII names only) in a symbol literal are shown as they are.
 pub(crate) fn symbol_inspect(id: IdentId) -> String {
     let name = id.get_name();
     if is_simple_name(&name) {
@@ -68,7 +68,9 @@ fn is_simple_name(name: &str) -> bool {
     };
     let mut chars = body.chars();
     match chars.next() {
-        Some(c) if c == '_' || c.is_alphabetic() => chars.all(|c| c == '_' || c.is_alphanumeric()),
+        Some(c) if c == '_' || c.is_ascii_alphabetic() => {
+            chars.all(|c| c == '_' || c.is_ascii_alphanumeric())
+        }
         _ => false,
     }
 }
-- 
2.43.0


From e193ea3061bc44e90f5b60d591bc7ac22902874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:45 +0000
Subject: [PATCH 096/127] fix: case without when was not a SyntaxError

---
 ruruby-parse/src/parser/flow_control.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index c4b165a..7483d21 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -125,11 +125,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         };
         self.consume_term()?;
         let mut when_ = vec![];
-        while self.consume_reserved(Reserved::When)? {
+        self.expect_reserved(Reserved::When)?;
+        loop {
             let arg = self.parse_mul_assign_rhs(None)?;
             self.parse_then()?;
             let body = self.parse_comp_stmt()?;
             when_.push(CaseBranch::new(arg, body));
+            if !self.consume_reserved(Reserved::When)? {
+                break;
+            }
         }
         let else_ = if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
-- 
2.43.0


From a97422ce65c084a8b2b3fd748bb61113edd8da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:57 +0000
Subject: [PATCH 097/127] fix: an unexpected end of the text panicked at some
 places, and @1 was an instance variable

---
 ruruby-parse/src/parser/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index b8ec1c5..753fe5a 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -73,13 +73,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> ParseErr {
         let loc = Loc(pos, pos);
-        ParseErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => ParseErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 }
 
@@ -479,7 +479,7 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
+                        if ch.is_alphabetic() || ch == '_' {
                         } else {
                             return Err(self.error_unexpected(pos));
                         }
-- 
2.43.0


From cbec3d18e2641f33476db47d8a893f096d06daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:23 +0000
Subject: [PATCH 098/127] fix: a call with arguments could be assigned to

---
 ruruby-parse/src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 20e141e..e887fb3 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -1048,6 +1048,11 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Check whether `lhs` is a local variable or not.
     fn check_lhs(&mut self, lhs: &Node) -> Result<(), ParseErr> {
+        if let NodeKind::Send { arglist, .. } = &lhs.kind {
+            if *arglist != ArgList::default() {
+                return Err(error_unexpected(lhs.loc(), "Can not assign to a call."));
+            }
+        };
         if let NodeKind::Ident(id) = lhs.kind {
             self.add_local_var_if_new(id);
         } else if let NodeKind::Const { .. } = lhs.kind {
-- 
2.43.0


From f8f781c6f31ea7e5a58151f1709589509fcb10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:21 +0000
Subject: [PATCH 099/127] fix: bind_call dropped block and keywords, and bind
 accepted receivers of other classes

---
 ruruby/src/builtin/unbound_method.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/unbound_method.rs b/ruruby/src/builtin/unbound_method.rs
index 375c0d7..8a694f4 100644
--- a/ruruby/src/builtin/unbound_method.rs
+++ b/ruruby/src/builtin/unbound_method.rs
@@ -14,6 +14,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 pub(crate) fn bind(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let method = self_val.as_unbound_method().unwrap();
+    check_receiver(vm, vm[0], method.owner)?;
     let res = Value::method(method.name, vm[0], method.method, method.owner);
     Ok(res)
 }
@@ -21,14 +22,27 @@ pub(crate) fn bind(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 pub(crate) fn bind_call(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     let method = self_val.as_unbound_method().unwrap();
+    check_receiver(vm, vm[0], method.owner)?;
     let (mut src, mut len) = vm.args_range();
     src += 1;
     len -= 1;
-    let args = Args2::new(len);
-    let res = vm.eval_method_range(method.method, vm[0], src, len, &args)?;
+    let mut new_args = Args2::new_with_block(len, args.block.clone());
+    new_args.kw_arg = args.kw_arg;
+    let res = vm.eval_method_range(method.method, vm[0], src, len, &new_args)?;
     Ok(res)
 }
 
+/// A method of a class applies to instances of the class, that of a module to any object.
+fn check_receiver(vm: &mut VM, receiver: Value, owner: Module) -> Result<(), RubyError> {
+    if !owner.is_module() && !vm.globals.kind_of(receiver, owner.into()) {
+        return Err(RubyError::typeerr(format!(
+            "bind argument must be an instance of {}",
+            owner.name()
+        )));
+    }
+    Ok(())
+}
+
 pub(crate) fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let method = self_val.as_unbound_method().unwrap();
-- 
2.43.0


From 691aa88c7b8f93b950ad45d5516d107a989e63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 100/127] fix: procs made from symbols dropped arguments,
 keywords and blocks

---
 ruruby/src/codegen.rs        | 15 ++++++++++++---
 ruruby/src/globals/method.rs | 22 ++++++++++++++--------
 ruruby/src/vm/executor.rs    |  3 +--
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index a0bbb7d..61ef501 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -46,16 +46,25 @@ impl Codegen {
     }
 
     /// Generate ISeq for sym.to_proc.
-    /// this function make iseq mostly equivalent to {|x| x.method}.
+    /// this function make iseq mostly equivalent to ->(x, *r, **o, &b) { x.method(*r, **o, &b) }.
     pub(crate) fn gen_sym_to_proc_iseq(globals: &mut Globals, method: IdentId) -> FnId {
         let id = globals.methods.add(MethodInfo::default());
         let mut iseq = ISeq::new();
         let mut iseq_sourcemap = vec![];
         iseq.push(Inst::GET_LOCAL);
         iseq.push32(0);
-        iseq.push(Inst::OPT_SEND);
+        iseq.push(Inst::GET_LOCAL);
+        iseq.push32(1);
+        iseq.gen_splat();
+        iseq.push(Inst::GET_LOCAL);
+        iseq.push32(2);
+        iseq.gen_create_array(1);
+        iseq.push(Inst::GET_LOCAL);
+        iseq.push32(3);
+        iseq.push(Inst::SEND);
         iseq.push32(method.into());
-        iseq.push16(0);
+        iseq.push16(1);
+        iseq.push_argflag(ArgFlag::new(false, true, false, true, true));
         iseq.push_method(None);
         iseq.push32(globals.methods.add_inline_cache_entry());
         iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 36ea683..f2f9852 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -551,27 +551,33 @@ impl ISeqInfo {
         iseq_sourcemap: Vec<(ISeqPos, Loc)>,
         source_info: SourceInfoRef,
     ) -> Self {
-        let id = IdentId::get_id("x");
-        let lvar = LvarCollector::from(id);
+        let ids: Vec<_> = ["x", "r", "o", "b"]
+            .iter()
+            .map(|name| IdentId::get_id(name))
+            .collect();
+        let mut lvar = LvarCollector::from(ids[0]);
+        lvar.insert(ids[1]);
+        lvar.insert_kwrest_param(ids[2]);
+        lvar.insert_block_param(ids[3]);
         ISeqInfo {
             method,
             params: ISeqParams {
-                param_ident: vec![id],
+                param_ident: ids,
                 req: 1,
                 opt: 0,
-                rest: None,
+                rest: Some(true),
                 post: 0,
-                block: false,
+                block: true,
                 keyword: FxHashMap::default(),
                 required_kw: vec![],
-                kwrest: false,
+                kwrest: true,
                 delegate: None,
             },
             iseq,
             lvar,
-            lvars: 1,
+            lvars: 4,
             exception_table: vec![],
-            opt_flag: true,
+            opt_flag: false,
             mularg_flag: false,
             class_defined: vec![],
             iseq_sourcemap,
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index bd83671..8fd8ce4 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -965,8 +965,7 @@ impl VM {
                 iseq.kind = ISeqKind::Method(None);
                 Ok(Value::procobj(self, self_val, *method, outer))
             }
-            Block::Proc(proc) => Ok(*proc),
-            _ => unimplemented!(),
+            Block::Proc(_) | Block::Sym(_) => Ok(self.create_proc(block)),
         }
     }
 
-- 
2.43.0


From 99cbaf137a8cd69a7fe13162c9e07c4447b3b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 101/127] fix: lambdas took arguments like blocks: no arity
 check, and a single array was unpacked

---
 ruruby/src/globals/method.rs                | 7 +++++++
 ruruby/src/vm/executor.rs                   | 2 +-
 ruruby/src/vm/executor/frame/arg_handler.rs | 5 ++++-
 ruruby/src/vm/executor/opt_core.rs          | 2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index f2f9852..ec30e70 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -545,6 +545,13 @@ impl ISeqInfo {
         }
     }
 
+    /// Make it a lambda, which takes arguments like a method.
+    pub(crate) fn make_lambda(&mut self) {
+        self.kind = ISeqKind::Method(None);
+        self.opt_flag = false;
+        self.mularg_flag = false;
+    }
+
     pub(crate) fn new_sym_to_proc(
         method: FnId,
         iseq: ISeq,
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 8fd8ce4..72f3a19 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -962,7 +962,7 @@ impl VM {
                 let outer = self.cfp_from_frame(*outer);
                 let self_val = outer.self_value();
                 let mut iseq = self.globals.methods[*method].as_iseq();
-                iseq.kind = ISeqKind::Method(None);
+                iseq.make_lambda();
                 Ok(Value::procobj(self, self_val, *method, outer))
             }
             Block::Proc(_) | Block::Sym(_) => Ok(self.create_proc(block)),
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index 82b274d..e562bd3 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -13,7 +13,7 @@ impl VM {
         let base = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
-        let (_positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
+        let (positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
             // Note that Ruby 3.0 doesn’t behave differently when calling a method which doesn’t accept keyword
             // arguments with keyword arguments.
             // For instance, the following case is not going to be deprecated and will keep working in Ruby 3.0.
@@ -34,6 +34,9 @@ impl VM {
         };
 
         self.prepare_block_args(base, iseq);
+        if iseq.kind == ISeqKind::Method(None) {
+            params.check_arity(positional_kwarg, args)?;
+        }
         // Superfluous arguments are dropped, missing ones are nil.
         let min = params.req + params.post;
         let max = min + params.opt;
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index ab52d52..8a237a2 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -401,7 +401,7 @@ impl VM {
                     }
                     Inst::CREATE_PROC => {
                         let method = self.pc.read_method().unwrap();
-                        self.globals.methods[method].as_iseq().kind = ISeqKind::Method(None);
+                        self.globals.methods[method].as_iseq().make_lambda();
                         let proc_obj = Value::procobj(self, self_val, method, self.cfp);
                         self.stack_push(proc_obj);
                     }
-- 
2.43.0


From ed942f447fb9592f7353dfd904011ddc0dbc63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 102/127] fix: a lambda literal given as a block argument was a
 plain block

---
 ruruby-parse/src/parser/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index e887fb3..da56738 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -900,7 +900,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 arglist.hash_splat.push(self.parse_arg()?);
             } else if self.consume_punct(Punct::BitAnd)? {
                 // block argument
-                arglist.block = Some(Box::new(self.parse_arg()?));
+                let mut block = self.parse_arg()?;
+                if let NodeKind::Lambda(_) = block.kind {
+                    // `&->() {}` passes a lambda; a bare Lambda node stands for a block literal here.
+                    let loc = block.loc;
+                    block = Node::new_comp_stmt(vec![block], loc);
+                }
+                arglist.block = Some(Box::new(block));
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
-- 
2.43.0


From 319af94b0699fd26dfbc34ccdd2c6dd7da5273a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 103/127] fix: a binding evaluated from code it is evaluating
 lost the place of that code

---
 ruruby/src/vm/executor/method.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index fde6f87..e232303 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -358,10 +358,16 @@ impl VM {
     ) -> VMResult {
         let id = self.parse_program_binding(path, code, binding_context)?;
         let iseq = self.globals.methods[id].as_iseq();
+        let mut prev = binding_context.iseq();
         binding_context.set_iseq(iseq);
         self.push_block_frame_from_binding(binding_context);
-        let val = self.run_loop()?;
-        Ok(val)
+        let res = self.run_loop();
+        // Code which is being evaluated in this context goes on, now with the variables defined meanwhile.
+        let iseq = binding_context.iseq();
+        prev.lvar = iseq.lvar.clone();
+        prev.lvars = iseq.lvars;
+        binding_context.set_iseq(prev);
+        res
     }
 }
 
-- 
2.43.0


From d5658c64b27182e7fd75ffb8c4b27cdbc750fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 104/127] fix: the owner of a method was an internal copy of
 its class or module

---
 ruruby/src/value/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 5fe5540..51e7ca6 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -234,7 +234,7 @@ impl DefinedMethod {
     }
 
     pub fn owner(&self) -> Module {
-        self.owner
+        self.owner.real_module()
     }
 }
 
-- 
2.43.0


From 3ec46a51207cfe183ffb0afea97240092a527ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:45 +0000
Subject: [PATCH 105/127] fix: an exception raised by to_s in an interpolation
 panicked

---
 ruruby/src/codegen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 61ef501..59320ed 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1072,11 +1072,13 @@ impl Codegen {
                         NodeKind::CompStmt(nodes) => {
                             self.gen_comp_stmt(globals, iseq, nodes, true)?;
                             iseq.push(Inst::TO_S);
+                            self.save_loc(iseq, node_loc);
                             c += 1;
                         }
                         _ => {
                             self.gen(globals, iseq, node, true)?;
                             iseq.push(Inst::TO_S);
+                            self.save_loc(iseq, node_loc);
                             c += 1;
                         }
                     }
@@ -1102,10 +1104,12 @@ impl Codegen {
                             NodeKind::CompStmt(nodes) => {
                                 self.gen_comp_stmt(globals, iseq, nodes, true)?;
                                 iseq.push(Inst::TO_S);
+                                self.save_loc(iseq, node_loc);
                             }
                             _ => {
                                 self.gen(globals, iseq, node, true)?;
                                 iseq.push(Inst::TO_S);
+                                self.save_loc(iseq, node_loc);
                             }
                         }
                     }
-- 
2.43.0


From 8c3f8d7e5b74d18718ed0eede615f1656eacd403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:55 +0000
Subject: [PATCH 106/127] fix: marking deeply nested objects overflowed the
 machine stack

---
 ruruby/src/alloc.rs        | 21 +++++++++++++++++++++
 ruruby/src/value/rvalue.rs | 26 +++++++++++++++-----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index 9a679a9..d74d899 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -43,6 +43,10 @@ pub trait GCRoot<T: GCBox>: GC<T> {
 }
 
 pub trait GCBox: PartialEq {
+    fn mark_children(&self, alloc: &mut Allocator<Self>)
+    where
+        Self: Sized;
+
     fn free(&mut self);
 
     fn next(&self) -> Option<std::ptr::NonNull<Self>>;
@@ -69,6 +73,8 @@ pub struct Allocator<T> {
     mark_counter: usize,
     /// List of free objects.
     free: Option<std::ptr::NonNull<T>>,
+    /// Marked objects, the references of which are not marked yet.
+    mark_stack: Vec<*const T>,
     /// Deallocated pages.
     free_pages: Vec<PageRef<T>>,
     /// Counter of GC execution.
@@ -93,6 +99,7 @@ impl<T: GCBox> Allocator<T> {
             pages: vec![],
             mark_counter: 0,
             free: None,
+            mark_stack: vec![],
             free_pages: vec![],
             count: 0,
             alloc_flag: false,
@@ -198,6 +205,7 @@ impl<T: GCBox> Allocator<T> {
     pub fn gc_mark_only(&mut self, root: &impl GC<T>) {
         self.clear_mark();
         root.mark(self);
+        self.mark_all();
         self.print_mark();
     }
 
@@ -235,6 +243,7 @@ impl<T: GCBox> Allocator<T> {
         }
         self.clear_mark();
         root.mark(self);
+        self.mark_all();
         #[cfg(feature = "gc-debug")]
         if root.startup_flag() {
             eprintln!("marked: {}  ", self.mark_counter);
@@ -258,6 +267,18 @@ impl<T: GCBox> Allocator<T> {
         }
     }
 
+    /// Mark all objects which are reachable from the marked objects.
+    fn mark_all(&mut self) {
+        while let Some(ptr) = self.mark_stack.pop() {
+            unsafe { (*ptr).mark_children(self) };
+        }
+    }
+
+    /// Register a newly marked object.
+    pub fn push_marked(&mut self, ptr: &T) {
+        self.mark_stack.push(ptr);
+    }
+
     /// Mark object.
     /// If object is already marked, return true.
     /// If not yet, mark it and return false.
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 1c23bf6..48351c1 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -451,9 +451,15 @@ impl RValue {
 
 impl GC<RValue> for RValue {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
-        if alloc.gc_check_and_mark(self) {
-            return;
+        // References from the object are marked later, because the nesting of objects is not bounded.
+        if !alloc.gc_check_and_mark(self) {
+            alloc.push_marked(self);
         }
+    }
+}
+
+impl GCBox for RValue {
+    fn mark_children(&self, alloc: &mut Allocator<RValue>) {
         #[cfg(ruruby_monitor)]
         if self.kind_or_none().is_none() {
             monitor::violation("gc-reclaimed-reachable", format!("{:p}", self));
@@ -497,16 +503,7 @@ impl GC<RValue> for RValue {
             _ => unreachable!("{:?}", self),
         }
     }
-}
-
-impl PartialEq for RValue {
-    #[inline(always)]
-    fn eq(&self, other: &Self) -> bool {
-        self.id() == other.id()
-    }
-}
 
-impl GCBox for RValue {
     fn free(&mut self) {
         unsafe {
             if let Some(k) = self.kind_or_none() {
@@ -561,6 +558,13 @@ impl GCBox for RValue {
     }
 }
 
+impl PartialEq for RValue {
+    #[inline(always)]
+    fn eq(&self, other: &Self) -> bool {
+        self.id() == other.id()
+    }
+}
+
 #[cfg(ruruby_monitor)]
 impl RValue {
     /// Called when this cell was freed. Overwrites everything but the link of the free list.
-- 
2.43.0


From 2205891eb2faa86f25d6aa4e94db1207fb2bd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 107/127] fix: deep recursion corrupted memory or overflowed
 the machine stack instead of raising SystemStackError

---
 ruruby-common/src/error.rs                  |  9 +++++
 ruruby-common/src/lib.rs                    |  1 +
 ruruby-common/src/machine_stack.rs          | 38 ++++++++++++++++++
 ruruby-parse/src/parser/expression.rs       |  9 +++++
 ruruby/src/builtin/array.rs                 |  3 ++
 ruruby/src/builtin/exception.rs             |  3 ++
 ruruby/src/builtin/hash.rs                  |  2 +-
 ruruby/src/codegen.rs                       |  3 ++
 ruruby/src/coroutine.rs                     |  9 ++++-
 ruruby/src/coroutine/stack.rs               | 11 +++++-
 ruruby/src/globals.rs                       |  4 ++
 ruruby/src/main.rs                          | 19 +++++++++
 ruruby/src/value/hash.rs                    | 31 +++++++++++----
 ruruby/src/value/rvalue.rs                  | 10 +++--
 ruruby/src/value/value.rs                   |  4 ++
 ruruby/src/vm/executor.rs                   | 44 +++++++++++++++++----
 ruruby/src/vm/executor/frame/arg_handler.rs | 20 ++++++++--
 ruruby/src/vm/executor/frame/ruby_stack.rs  | 31 +++++++++++----
 ruruby/src/vm/executor/method.rs            | 21 ++++++----
 ruruby/src/vm/executor/opt_core.rs          | 14 +++----
 20 files changed, 238 insertions(+), 48 deletions(-)
 create mode 100644 ruruby-common/src/machine_stack.rs

diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 32cc459..bcee602 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -71,6 +71,7 @@ pub enum RuntimeErrKind {
     Range,
     ZeroDivision,
     DomainError,
+    SystemStack,
 }
 
 impl std::fmt::Debug for RuntimeErrKind {
@@ -90,6 +91,7 @@ impl std::fmt::Debug for RuntimeErrKind {
             Self::Range => write!(f, "RangeError"),
             Self::ZeroDivision => write!(f, "ZeroDivisionError"),
             Self::DomainError => write!(f, "Math::DomainError"),
+            Self::SystemStack => write!(f, "SystemStackError"),
         }
     }
 }
@@ -203,6 +205,13 @@ impl RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::NoMethod, msg.into())
     }
 
+    pub fn stack_overflow() -> RubyError {
+        RubyError::new_runtime_err(
+            RuntimeErrKind::SystemStack,
+            "Stack level too deep.".to_string(),
+        )
+    }
+
     pub fn system_exit(code: i64) -> RubyError {
         RubyError::new(RubyErrorKind::SystemExit(code))
     }
diff --git a/ruruby-common/src/lib.rs b/ruruby-common/src/lib.rs
index 0cbefff..55dcbb5 100644
--- a/ruruby-common/src/lib.rs
+++ b/ruruby-common/src/lib.rs
@@ -7,6 +7,7 @@ pub mod func_id;
 pub mod id_table;
 pub mod iseq_util;
 pub mod lvar_collector;
+pub mod machine_stack;
 pub mod source_info;
 pub mod vm_inst;
 pub use arg_flag::ArgFlag;
diff --git a/ruruby-common/src/machine_stack.rs b/ruruby-common/src/machine_stack.rs
new file mode 100644
index 0000000..4ea8bc2
--- /dev/null
+++ b/ruruby-common/src/machine_stack.rs
@@ -0,0 +1,38 @@
+//! Limit of the machine stack for recursive procedures.
+use std::cell::Cell;
+
+/// The room which is left for procedures that do not check the limit.
+pub const MARGIN: usize = 1024 * 192;
+
+thread_local!(
+    static LIMIT: Cell<usize> = Cell::new(0);
+);
+
+/// Get the approximate address of the top of the machine stack.
+#[inline(never)]
+pub fn current() -> usize {
+    let v = 0u8;
+    std::hint::black_box(&v as *const u8 as usize)
+}
+
+/// Set the lowest address which the machine stack may reach (0: no limit). Return the previous one.
+pub fn set_limit(addr: usize) -> usize {
+    LIMIT.with(|l| l.replace(addr))
+}
+
+/// Set the limit for a thread of the default size, if it was not set yet.
+pub fn init_limit() {
+    const DEFAULT_SIZE: usize = 1024 * 1024 * 2;
+    LIMIT.with(|l| {
+        if l.get() == 0 {
+            l.set(current() - DEFAULT_SIZE + MARGIN * 2);
+        }
+    });
+}
+
+/// Check whether the machine stack is used up.
+#[inline(always)]
+pub fn is_exhausted() -> bool {
+    let v = 0u8;
+    (&v as *const u8 as usize) < LIMIT.with(|l| l.get())
+}
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index da56738..2662bcd 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -457,6 +457,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_unary_minus(&mut self) -> Result<Node, ParseErr> {
+        if machine_stack::is_exhausted() {
+            return Err(error_unexpected(self.prev_loc(), "Nesting too deep."));
+        }
         let save = self.save_state();
         let lhs = if self.consume_punct(Punct::Minus)? {
             let save2 = self.save_state();
@@ -539,6 +542,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_unary(&mut self) -> Result<Node, ParseErr> {
+        if machine_stack::is_exhausted() {
+            return Err(error_unexpected(self.prev_loc(), "Nesting too deep."));
+        }
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
             let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
@@ -662,6 +668,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     pub(super) fn parse_primary(&mut self, suppress_unparen_call: bool) -> Result<Node, ParseErr> {
+        if machine_stack::is_exhausted() {
+            return Err(error_unexpected(self.prev_loc(), "Nesting too deep."));
+        }
         let tok = self.get()?;
         let loc = tok.loc();
         match tok.kind {
diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 5cf28db..f122f01 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -1313,6 +1313,9 @@ fn ary_flatten(
     level: Option<usize>,
     origin: Value,
 ) -> Result<bool, RubyError> {
+    if machine_stack::is_exhausted() {
+        return Err(RubyError::stack_overflow());
+    }
     let mut flag = false;
     match level {
         None => match val.as_array() {
diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index 04d4bb1..aba9ab4 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -68,6 +68,9 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(exception);
     globals.set_toplevel_constant("SystemExit", err);
 
+    let err = Module::class_under(exception);
+    globals.set_toplevel_constant("SystemStackError", err);
+
     exception.into()
 }
 
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 3370dc3..38a01ca 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -55,7 +55,7 @@ fn hash_new(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let hash = self_val.as_hash().unwrap();
-    let s = hash.to_s(vm)?;
+    let s = hash.to_s(vm, self_val)?;
     Ok(Value::string(s))
 }
 
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 59320ed..de8a3aa 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1030,6 +1030,9 @@ impl Codegen {
     ) -> Result<(), RubyError> {
         self.loc = node.loc();
         let node_loc = node.loc();
+        if machine_stack::is_exhausted() {
+            return Err(self.error_syntax("Nesting too deep.", node_loc));
+        }
         if !use_value {
             match node.kind {
                 NodeKind::Nil
diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index 2eb6f11..4681dc8 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -183,8 +183,13 @@ impl FiberContext {
                 self.initialize();
                 self.args_len = args.len();
                 self.vm.stack_push(Value::nil());
-                args.iter().for_each(|val| self.vm.stack_push(*val));
+                if let Err(err) = self.vm.stack_push_slice(args) {
+                    self.state = FiberState::Dead;
+                    return Err(err);
+                }
+                let limit = machine_stack::set_limit(self.stack.limit());
                 asm::invoke_context(ptr);
+                machine_stack::set_limit(limit);
                 self.vm.globals.fiber_result.clone()
             }
             FiberState::Running => Err(RubyError::fiber("Attempt to resume a running fiber.")),
@@ -196,7 +201,9 @@ impl FiberContext {
                 };
                 self.state = FiberState::Running;
                 self.vm.stack_push(val);
+                let limit = machine_stack::set_limit(self.stack.limit());
                 asm::switch_context(ptr);
+                machine_stack::set_limit(limit);
                 self.vm.globals.fiber_result.clone()
             }
         }
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index c8e2462..e996498 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -3,7 +3,7 @@ use region::{protect, Protection};
 use std::alloc::{GlobalAlloc, Layout, LayoutError};
 use std::cell::RefCell;
 
-const DEFAULT_STACK_SIZE: usize = 1024 * 512;
+const DEFAULT_STACK_SIZE: usize = 1024 * 1024 * 2;
 const STACK_LAYOUT: Result<Layout, LayoutError> =
     Layout::from_size_align(DEFAULT_STACK_SIZE, 0x1000);
 
@@ -19,7 +19,7 @@ thread_local!(
 /// The stack area is newly allocated when a Fiber object is 'resume'd at the first time
 /// after created.
 ///  
-/// Default size of the stack area is DEFAULT_SIZE bytes(currently, 512KiB).
+/// Default size of the stack area is DEFAULT_STACK_SIZE bytes(currently, 2MiB).
 ///
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[repr(transparent)]
@@ -65,6 +65,13 @@ impl Stack {
         self.0 = std::ptr::null_mut();
     }
 
+    ///
+    /// Get the lowest address which recursive procedures may use.
+    ///
+    pub(crate) fn limit(&self) -> usize {
+        self.0 as usize + machine_stack::MARGIN
+    }
+
     ///
     /// Initialize `Stack`.
     ///
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index b7a85ab..4641af3 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -268,6 +268,10 @@ impl Globals {
                     let err_class = self.get_toplevel_constant("LocalJumpError").into_module();
                     Value::exception(err_class, err)
                 }
+                RuntimeErrKind::SystemStack => {
+                    let err_class = self.get_toplevel_constant("SystemStackError").into_module();
+                    Value::exception(err_class, err)
+                }
                 RuntimeErrKind::DomainError => {
                     let math = self.get_toplevel_constant("Math");
                     let err_class = math
diff --git a/ruruby/src/main.rs b/ruruby/src/main.rs
index 89b7414..6ee64e0 100644
--- a/ruruby/src/main.rs
+++ b/ruruby/src/main.rs
@@ -25,6 +25,25 @@ struct Cli {
 
 #[cfg(not(tarpaulin_include))]
 fn main() {
+    // The machine stack has to be large enough for deep recursion.
+    const STACK_SIZE: usize = 64 * 1024 * 1024;
+    let handle = std::thread::Builder::new()
+        .name("main".to_string())
+        .stack_size(STACK_SIZE)
+        .spawn(|| {
+            machine_stack::set_limit(
+                machine_stack::current() - STACK_SIZE + machine_stack::MARGIN * 2,
+            );
+            run_main();
+        })
+        .unwrap();
+    if handle.join().is_err() {
+        std::process::exit(101);
+    }
+}
+
+#[cfg(not(tarpaulin_include))]
+fn run_main() {
     let cli = Cli::parse();
     if cli.verbose {
         println!("{} {}", crate_name!(), crate_version!());
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 6037e75..e5a8ac4 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use std::hash::Hash;
+use std::{cell::Cell, hash::Hash};
 use std::ops::Deref;
 
 #[derive(Debug, Clone)]
@@ -70,6 +70,19 @@ impl HashInfo {
     }
 }
 
+/// Calculate the hash of a container. Deeply nested elements, which may be the container itself, do not count.
+pub(crate) fn nested_hash(f: impl FnOnce()) {
+    const MAX_DEPTH: usize = 16;
+    thread_local!(static DEPTH: Cell<usize> = Cell::new(0););
+    DEPTH.with(|depth| {
+        if depth.get() < MAX_DEPTH {
+            depth.set(depth.get() + 1);
+            f();
+            depth.set(depth.get() - 1);
+        }
+    })
+}
+
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct HashKey(pub Value);
 
@@ -89,9 +102,9 @@ impl Hash for HashKey {
                 ObjKind::BIGNUM => lhs.bignum().hash(state),
                 ObjKind::FLOAT => lhs.float().to_bits().hash(state),
                 ObjKind::STRING => lhs.string().hash(state),
-                ObjKind::ARRAY => lhs.array().hash(state),
-                ObjKind::RANGE => lhs.range().hash(state),
-                ObjKind::HASH => lhs.rhash().hash(state),
+                ObjKind::ARRAY => nested_hash(|| lhs.array().hash(state)),
+                ObjKind::RANGE => nested_hash(|| lhs.range().hash(state)),
+                ObjKind::HASH => nested_hash(|| lhs.rhash().hash(state)),
                 ObjKind::METHOD => lhs.method().hash(state),
                 _ => self.0.hash(state),
             },
@@ -355,12 +368,16 @@ impl HashInfo {
         }
     }
 
-    pub(crate) fn to_s(&self, vm: &mut VM) -> Result<String, RubyError> {
+    pub(crate) fn to_s(&self, vm: &mut VM, self_val: Value) -> Result<String, RubyError> {
         let s = match self.len() {
             0 => "{}".to_string(),
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
+                let inspect = |vm: &mut VM, v: Value| match v.id() == self_val.id() {
+                    true => Ok("{...}".to_string()),
+                    false => vm.val_inspect(v),
+                };
                 // #inspect of an element may change this hash.
                 let pairs: Vec<_> = self.iter().collect();
                 for (k, v) in &pairs {
@@ -368,8 +385,8 @@ impl HashInfo {
                     vm.temp_push(*v);
                 }
                 for (k, v) in pairs {
-                    let k_inspect = vm.val_inspect(k)?;
-                    let v_inspect = vm.val_inspect(v)?;
+                    let k_inspect = inspect(vm, k)?;
+                    let v_inspect = inspect(vm, v)?;
                     result = if first {
                         format!("{}=>{}", k_inspect, v_inspect)
                     } else {
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 48351c1..3fae7da 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -87,9 +87,9 @@ impl std::hash::Hash for RValue {
             ObjKind::FLOAT => self.float().to_bits().hash(state),
             ObjKind::COMPLEX => self.complex().hash(state),
             ObjKind::STRING => self.string().hash(state),
-            ObjKind::ARRAY => self.array().hash(state),
-            ObjKind::RANGE => self.range().hash(state),
-            ObjKind::HASH => self.rhash().hash(state),
+            ObjKind::ARRAY => nested_hash(|| self.array().hash(state)),
+            ObjKind::RANGE => nested_hash(|| self.range().hash(state)),
+            ObjKind::HASH => nested_hash(|| self.rhash().hash(state)),
             ObjKind::METHOD | ObjKind::UNBOUND_METHOD => self.method().hash(state),
             _ => self.id().hash(state),
         }
@@ -413,6 +413,10 @@ impl RValue {
 impl RValue {
     // This type of equality is used for comparison for keys of Hash.
     pub(crate) fn eql(&self, other: &Self) -> bool {
+        // Containers which hold themselves have no end.
+        if machine_stack::is_exhausted() {
+            return false;
+        }
         match (self.kind(), other.kind()) {
             (ObjKind::ORDINARY, ObjKind::ORDINARY) => self.id() == other.id(),
             (ObjKind::BIGNUM, ObjKind::BIGNUM) => *self.bignum() == *other.bignum(),
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index afac94a..52dbe41 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -91,6 +91,10 @@ impl PartialEq for Value {
             }
             return false;
         }
+        // Containers which hold themselves have no end.
+        if machine_stack::is_exhausted() {
+            return false;
+        }
         let (lhs, rhs) = (self.rvalue(), other.rvalue());
         match (lhs.kind(), rhs.kind()) {
             (ObjKind::BIGNUM, ObjKind::BIGNUM) => *lhs.bignum() == *rhs.bignum(),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 72f3a19..d68db8a 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -92,6 +92,7 @@ impl GC<RValue> for VM {
 
 impl VM {
     pub fn new() -> VMRef {
+        machine_stack::init_limit();
         let mut globals = GlobalsRef::new(Globals::new());
         let vm = VM {
             globals,
@@ -155,7 +156,7 @@ impl VM {
         let mut vm = VM {
             globals: self.globals,
             temp_stack: vec![],
-            stack: RubyStack::new(),
+            stack: RubyStack::with_size(FIBER_STACK_SIZE),
             pc: ISeqPtr::default(),
             lfp: LocalFrame::default(),
             cfp: ControlFrame::default(),
@@ -215,9 +216,27 @@ impl VM {
         self.stack.check_boundary(p)
     }
 
-    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Args2 {
-        self.stack.extend_from_slice(args);
-        Args2::from(args)
+    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Result<Args2, RubyError> {
+        self.stack_push_slice(args)?;
+        Ok(Args2::from(args))
+    }
+
+    /// Push values, the number of which is not bounded by the program text.
+    pub(crate) fn stack_push_slice(&mut self, slice: &[Value]) -> Result<(), RubyError> {
+        if !self.stack.has_room(slice.len()) {
+            return Err(RubyError::stack_overflow());
+        }
+        self.stack.extend_from_slice(slice);
+        Ok(())
+    }
+
+    /// Check whether there is room for one more level of recursion.
+    #[inline(always)]
+    pub(crate) fn check_stack(&self) -> Result<(), RubyError> {
+        if !self.stack.has_room(0) || machine_stack::is_exhausted() {
+            return Err(RubyError::stack_overflow());
+        }
+        Ok(())
     }
 
     // handling arguments
@@ -782,6 +801,7 @@ impl VM {
 
 impl VM {
     pub(crate) fn val_inspect(&mut self, val: Value) -> Result<String, RubyError> {
+        self.check_stack()?;
         let s = match val.unpack() {
             RV::Uninitialized => "[Uninitialized]".to_string(),
             RV::Nil => "nil".to_string(),
@@ -796,7 +816,7 @@ impl VM {
                 ObjKind::RANGE => oref.range().inspect(self)?,
                 ObjKind::MODULE | ObjKind::CLASS => oref.module().inspect(),
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
-                ObjKind::HASH => oref.rhash().to_s(self)?,
+                ObjKind::HASH => oref.rhash().to_s(self, val)?,
                 _ => {
                     let id = IdentId::get_id("inspect");
                     self.eval_send0(id, val)?
@@ -909,6 +929,9 @@ impl VM {
                     if ary_len == 0 {
                         self.stack.remove(p);
                     } else {
+                        if !self.stack.has_room(ary_len) {
+                            return Err(RubyError::stack_overflow());
+                        }
                         self.stack.grow(ary_len - 1);
                         RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
                         p[0..ary_len].copy_from_slice(&a[..]);
@@ -923,9 +946,14 @@ impl VM {
     }
 
     fn pop_args_to_array(&mut self, arg_num: usize) -> VMResult {
-        let args = self.pop_args_to_args(arg_num)?;
-        let start = self.stack.sp - args.len();
-        let ary = start[0..args.len()].to_vec();
+        let start = self.stack.sp - arg_num;
+        let mut ary = vec![];
+        for i in 0..arg_num as isize {
+            match start[i].as_splat() {
+                Some(inner) => ary.append(&mut self.splat_to_vec(inner)?),
+                None => ary.push(start[i]),
+            }
+        }
         self.stack.sp = start;
         Ok(Value::array_from(ary))
     }
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index e562bd3..4d44b45 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -33,7 +33,7 @@ impl VM {
             (false, kw_flag)
         };
 
-        self.prepare_block_args(base, iseq);
+        self.prepare_block_args(base, iseq)?;
         if iseq.kind == ISeqKind::Method(None) {
             params.check_arity(positional_kwarg, args)?;
         }
@@ -130,7 +130,8 @@ impl VM {
             // Keyword arguments are treated as a positional Hash argument.
             self.stack_push(args.kw_arg);
         }
-        self.prepare_block_args(base, iseq);
+        // The number of the expanded arguments is bounded.
+        let _ = self.prepare_block_args(base, iseq);
         let args_len = (self.sp() - base) as usize;
         let req_len = iseq.params.req;
         if req_len < args_len {
@@ -175,15 +176,26 @@ impl VM {
 }
 
 impl VM {
-    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) {
+    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) -> Result<(), RubyError> {
         // if a single Array argument is given for the block requiring multiple formal parameters,
         // the arguments must be expanded.
         if self.sp() - base == 1 && iseq.mularg_flag {
             if let Some(ary) = base[0].as_array() {
+                let params = &iseq.params;
+                let ary = if params.rest.is_none() && params.delegate.is_none() {
+                    // Superfluous elements are dropped.
+                    &ary[0..ary.len().min(params.req + params.opt + params.post)]
+                } else {
+                    &**ary
+                };
+                if ary.len() > iseq.lvars && !self.stack.has_room(ary.len()) {
+                    return Err(RubyError::stack_overflow());
+                }
                 self.stack.pop();
-                self.stack.extend_from_slice(&**ary);
+                self.stack.extend_from_slice(ary);
             }
         }
+        Ok(())
     }
 
     fn fill_positional_arguments(&mut self, mut base: StackPtr, iseq: ISeqRef) {
diff --git a/ruruby/src/vm/executor/frame/ruby_stack.rs b/ruruby/src/vm/executor/frame/ruby_stack.rs
index 599966c..67bb988 100644
--- a/ruruby/src/vm/executor/frame/ruby_stack.rs
+++ b/ruruby/src/vm/executor/frame/ruby_stack.rs
@@ -3,7 +3,12 @@ use crate::{ControlFrame, LocalFrame, Value, CF};
 use std::ops::{Index, IndexMut};
 use std::pin::Pin;
 
-pub(super) const VM_STACK_SIZE: usize = 8192;
+/// Stack size of the main VM.
+pub(crate) const VM_STACK_SIZE: usize = 256 * 1024;
+/// Stack size of a Fiber.
+pub(crate) const FIBER_STACK_SIZE: usize = 64 * 1024;
+/// The room which is left for the operands of the current frame.
+const STACK_RESERVE: usize = 8192;
 
 ///
 /// Ruruby exection stack.
@@ -11,7 +16,7 @@ pub(super) const VM_STACK_SIZE: usize = 8192;
 /// Ruruby stack is implemented as a fixed and pinned heap array of `Value`s.
 /// You can do operations like push, pop, or extend, as if it was a Vec.
 ///
-/// Stack size is VM_STACK_SIZE(currently, 8192 `Value`s).
+/// Memory of the part which was never used is not committed.
 #[derive(Clone)]
 pub(crate) struct RubyStack {
     /// Stack pointer.
@@ -29,7 +34,11 @@ impl std::fmt::Debug for RubyStack {
 impl RubyStack {
     /// Allocate new `RubyStack`.
     pub(crate) fn new() -> Self {
-        let mut inner = unsafe { Box::new_uninit_slice(VM_STACK_SIZE).assume_init() };
+        Self::with_size(VM_STACK_SIZE)
+    }
+
+    pub(crate) fn with_size(size: usize) -> Self {
+        let mut inner = unsafe { Box::new_uninit_slice(size).assume_init() };
         let sp = StackPtr::from(inner.as_mut_ptr());
         Self {
             sp,
@@ -44,7 +53,7 @@ impl RubyStack {
     pub(crate) fn check_boundary(&self, p: *mut Value) -> Option<usize> {
         let ptr = self.buf.as_ptr() as *mut Value;
         unsafe {
-            if ptr <= p && p < ptr.add(VM_STACK_SIZE) {
+            if ptr <= p && p < ptr.add(self.buf.len()) {
                 Some(p.offset_from(ptr as *const _) as usize)
             } else {
                 None
@@ -61,11 +70,17 @@ impl RubyStack {
         len as usize
     }
 
+    /// Check whether `n` more values can be pushed and a new frame can be created on them.
+    #[inline(always)]
+    pub(crate) fn has_room(&self, n: usize) -> bool {
+        self.len() + n + STACK_RESERVE <= self.buf.len()
+    }
+
     /// Resize the stack so that len is equal to new_len.
     /// If new_len is greater than len, the stack is extended by the difference, with each additional slot filled with Nil.
     /// If new_len is less than len, the stack is simply truncated.
     pub(crate) fn resize_to(&mut self, new_sp: StackPtr) {
-        debug_assert!(new_sp <= self.sp + VM_STACK_SIZE);
+        assert!(new_sp <= self.bottom() + self.buf.len());
         if new_sp > self.sp {
             let mut p = self.sp;
             for _ in 0..(new_sp - self.sp) as usize {
@@ -78,7 +93,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn grow(&mut self, offset: usize) {
-        debug_assert!(self.len() + offset <= VM_STACK_SIZE);
+        assert!(self.len() + offset <= self.buf.len());
         for _ in 0..offset {
             self.sp[0] = Value::nil();
             self.sp += 1;
@@ -100,7 +115,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn push(&mut self, val: Value) {
-        debug_assert!(self.len() != VM_STACK_SIZE);
+        debug_assert!(self.len() != self.buf.len());
         self.sp[0] = val;
         self.sp += 1;
     }
@@ -134,11 +149,13 @@ impl RubyStack {
 
     pub(crate) fn extend_from_slice(&mut self, src: &[Value]) {
         let src_len = src.len();
+        assert!(self.len() + src_len <= self.buf.len());
         self.sp[0..src_len].copy_from_slice(src);
         self.sp += src_len;
     }
 
     pub(crate) fn extend_from_within_ptr(&mut self, src: StackPtr, len: usize) {
+        assert!(self.len() + len <= self.buf.len());
         let slice = &src[0..len];
         self.sp[0..len].copy_from_slice(slice);
         self.sp += len;
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index e232303..dc39577 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -12,7 +12,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(receiver);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_send(method_name, receiver, &args, true)?
             .handle(self)
     }
@@ -36,18 +36,18 @@ impl VM {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
                 self.stack_push(outer.self_value());
-                self.stack.extend_from_slice(slice);
+                self.stack_push_slice(slice)?;
                 self.invoke_block(*method, outer, &Args2::new(slice.len()))?
                     .handle(self)
             }
             Block::Proc(proc) => {
                 self.stack_push(Value::nil());
-                self.stack.extend_from_slice(slice);
+                self.stack_push_slice(slice)?;
                 self.invoke_proc(*proc, None, &Args2::new(slice.len()))?
                     .handle(self)
             }
             Block::Sym(sym) => {
-                self.stack.extend_from_slice(slice);
+                self.stack_push_slice(slice)?;
                 self.invoke_sym_proc(*sym, &Args2::new(slice.len()))?
                     .handle(self)
             }
@@ -79,7 +79,7 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_block(method, outer, &args)?.handle(self)
     }
 
@@ -273,7 +273,7 @@ impl VM {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
                 self.stack_push(self_value);
-                let args = self.stack_push_args(args);
+                let args = self.stack_push_args(args)?;
                 self.invoke_block(*method, outer, &args)?.handle(self)
             }
             Block::Proc(proc) => self.eval_proc(*proc, self_value, &args),
@@ -291,7 +291,7 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
-        self.stack.extend_from_slice(slice);
+        self.stack_push_slice(slice)?;
         self.invoke_method(method, args, true)?.handle(self)
     }
 
@@ -305,6 +305,9 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
+        if !self.stack.has_room(len) {
+            return Err(RubyError::stack_overflow());
+        }
         self.stack.extend_from_within_ptr(src, len);
         self.invoke_method(method, args, true)?.handle(self)
     }
@@ -346,7 +349,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(Value::nil());
-        let args = self.stack_push_args(&args);
+        let args = self.stack_push_args(&args)?;
         self.invoke_proc(proc, self_value, &args)?.handle(self)
     }
 
@@ -485,6 +488,7 @@ impl VM {
         args: &Args2,
     ) -> InvokeResult {
         use MethodInfo::*;
+        self.check_stack()?;
         let val = match &self.globals.methods[fid] {
             BuiltinFunc { func, name, .. } => {
                 let name = *name;
@@ -512,6 +516,7 @@ impl VM {
         use_value: bool,
     ) -> InvokeResult {
         use MethodInfo::*;
+        self.check_stack()?;
         let val = match &self.globals.methods[fid] {
             BuiltinFunc { func, name, .. } => {
                 let name = *name;
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 8a237a2..28ae318 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -725,7 +725,7 @@ impl VM {
             if let Some(v) = self.cur_delegate() {
                 let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
                 args.append(ary);
-                self.stack.extend_from_slice(ary);
+                self.stack_push_slice(ary)?;
             }
         }
         args.block = block;
@@ -789,14 +789,14 @@ impl VM {
             };
             let mut args = if no_arg {
                 // When `super` has no arguments, use arguments which were passed to the current method.
-                self.push_current_args()
+                self.push_current_args()?
             } else {
                 let mut args = self.pop_args_to_args(args_num)?;
                 if flag.has_delegate() {
                     if let Some(v) = self.cur_delegate() {
                         let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
                         args.append(ary);
-                        self.stack.extend_from_slice(ary);
+                        self.stack_push_slice(ary)?;
                     }
                 }
                 if let Some(MethodInfo::RubyFunc { iseq }) =
@@ -823,7 +823,7 @@ impl VM {
     }
 
     /// Push the current values of the parameters of the current method in the form of arguments.
-    fn push_current_args(&mut self) -> Args2 {
+    fn push_current_args(&mut self) -> Result<Args2, RubyError> {
         let mfp = self.cur_mfp();
         let iseq = mfp.iseq();
         let params = &iseq.params;
@@ -835,12 +835,12 @@ impl VM {
         }
         if let Some(delegate) = params.delegate {
             if let Some(ary) = lfp[delegate].as_array() {
-                self.stack.extend_from_slice(&**ary);
+                self.stack_push_slice(&**ary)?;
             }
         }
         if params.rest == Some(true) {
             match lfp[idx as isize].as_array() {
-                Some(ary) => self.stack.extend_from_slice(&**ary),
+                Some(ary) => self.stack_push_slice(&**ary)?,
                 None => self.stack_push(lfp[idx as isize]),
             }
             idx += 1;
@@ -865,7 +865,7 @@ impl VM {
         if !map.is_empty() {
             args.kw_arg = Value::hash_from_map(map);
         }
-        args
+        Ok(args)
     }
 
     /// Invoke the block given to the method with `args`.
-- 
2.43.0


From 51d3c53aeeb28527d9ca175d5e5e16e0978e7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 108/127] fix: == of containers used containers which == of an
 element changed, or which were already collected

---
 ruruby/src/vm/executor/ops.rs | 80 ++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 1bcf20c..595ba1b 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -460,35 +460,17 @@ impl VM {
             (ObjKind::STRING, ObjKind::STRING) => {
                 lhsr.string().as_bytes() == rhsr.string().as_bytes()
             }
-            (ObjKind::ARRAY, ObjKind::ARRAY) => {
-                let (lhs, rhs) = (&*lhsr.array(), &*rhsr.array());
-                if lhs.len() != rhs.len() {
-                    return Ok(Some(false));
-                }
-                for (l, r) in lhs.iter().zip(rhs.iter()) {
-                    if !self.eval_eq2(*r, *l)? {
-                        return Ok(Some(false));
-                    }
-                }
-                true
-            }
-            (ObjKind::RANGE, ObjKind::RANGE) => {
-                let (lhs, rhs) = (&*lhsr.range(), &*rhsr.range());
-                rhs.exclude == lhs.exclude
-                    && self.eval_eq2(rhs.start, lhs.start)?
-                    && self.eval_eq2(rhs.end, lhs.end)?
-            }
-            (ObjKind::HASH, ObjKind::HASH) => {
-                let pairs = match lhsr.rhash().pair_values(rhsr.rhash()) {
-                    Some(pairs) => pairs,
-                    None => return Ok(Some(false)),
-                };
-                for (l, r) in pairs {
-                    if !self.eval_eq2(r, l)? {
-                        return Ok(Some(false));
-                    }
-                }
-                true
+            (ObjKind::ARRAY, ObjKind::ARRAY)
+            | (ObjKind::RANGE, ObjKind::RANGE)
+            | (ObjKind::HASH, ObjKind::HASH) => {
+                self.check_stack()?;
+                // `==` of an element may change the containers, or collect garbage.
+                let len = self.temp_len();
+                self.temp_push(lhs);
+                self.temp_push(rhs);
+                let res = self.eval_eq_elements(rhs, lhs);
+                self.temp_stack.truncate(len);
+                res?
             }
             (ObjKind::REGEXP, ObjKind::REGEXP) => *lhsr.regexp() == *rhsr.regexp(),
             (ObjKind::TIME, ObjKind::TIME) => *lhsr.time() == *rhsr.time(),
@@ -505,6 +487,46 @@ impl VM {
         Ok(Some(b))
     }
 
+    fn eval_eq_elements(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
+        match lhs.rvalue().kind() {
+            ObjKind::ARRAY => {
+                let (lhs, rhs) = (lhs.into_array(), rhs.into_array());
+                if lhs.len() != rhs.len() {
+                    return Ok(false);
+                }
+                let mut i = 0;
+                while i < lhs.len() {
+                    if i >= rhs.len() || !self.eval_eq2(rhs[i], lhs[i])? {
+                        return Ok(false);
+                    }
+                    i += 1;
+                }
+            }
+            ObjKind::RANGE => {
+                let (lhs, rhs) = (lhs.rvalue().range(), rhs.rvalue().range());
+                return Ok(rhs.exclude == lhs.exclude
+                    && self.eval_eq2(rhs.start, lhs.start)?
+                    && self.eval_eq2(rhs.end, lhs.end)?);
+            }
+            _ => {
+                let pairs = match lhs.rvalue().rhash().pair_values(rhs.rvalue().rhash()) {
+                    Some(pairs) => pairs,
+                    None => return Ok(false),
+                };
+                for (l, r) in &pairs {
+                    self.temp_push(*l);
+                    self.temp_push(*r);
+                }
+                for (l, r) in pairs {
+                    if !self.eval_eq2(r, l)? {
+                        return Ok(false);
+                    }
+                }
+            }
+        }
+        Ok(true)
+    }
+
     pub(super) fn eval_eq(&mut self) -> Result<bool, RubyError> {
         let (lhs, rhs) = self.stack_pop2();
         self.eval_eq2(rhs, lhs)
-- 
2.43.0


From fa16ec029ad8321bcf88e6e3ec10cdcca943ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 109/127] fix: adding a large number to a Time panicked

---
 ruruby/src/builtin/time.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/ruruby/src/builtin/time.rs b/ruruby/src/builtin/time.rs
index b37a988..2319d80 100644
--- a/ruruby/src/builtin/time.rs
+++ b/ruruby/src/builtin/time.rs
@@ -28,24 +28,22 @@ impl std::ops::Sub<Self> for TimeInfo {
     }
 }
 
-impl std::ops::Sub<Duration> for TimeInfo {
-    type Output = Self;
-    fn sub(self, rhs: Duration) -> Self::Output {
+impl TimeInfo {
+    fn checked_add(self, rhs: Duration) -> Result<Self, RubyError> {
         match self {
-            TimeInfo::Local(t) => Self::Local(t - rhs),
-            TimeInfo::UTC(t) => Self::UTC(t - rhs),
+            TimeInfo::Local(t) => t.checked_add_signed(rhs).map(Self::Local),
+            TimeInfo::UTC(t) => t.checked_add_signed(rhs).map(Self::UTC),
         }
+        .ok_or_else(|| RubyError::range("Time out of range."))
     }
 }
 
-impl std::ops::Add<Duration> for TimeInfo {
-    type Output = Self;
-    fn add(self, rhs: Duration) -> Self::Output {
-        match self {
-            TimeInfo::Local(t) => Self::Local(t + rhs),
-            TimeInfo::UTC(t) => Self::UTC(t + rhs),
-        }
+/// Convert `secs` to a duration.
+fn seconds(secs: i64) -> Result<Duration, RubyError> {
+    if secs.unsigned_abs() > (i64::MAX / 1000) as u64 {
+        return Err(RubyError::range("Time out of range."));
     }
+    Ok(Duration::seconds(secs))
 }
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
@@ -189,18 +187,21 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time - Duration::seconds(i);
+            let res = time.checked_add(-seconds(i)?)?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
             let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time - Duration::nanoseconds(offset);
+            let res = time.checked_add(-Duration::nanoseconds(offset))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Object(rv) => match rv.kind() {
             ObjKind::TIME => {
                 let res = time - rv.time().clone();
-                let offset = (res.num_nanoseconds().unwrap() as f64) / 1000.0 / 1000.0 / 1000.0;
+                let offset = match res.num_nanoseconds() {
+                    Some(nanos) => nanos as f64 / 1000.0 / 1000.0 / 1000.0,
+                    None => res.num_milliseconds() as f64 / 1000.0,
+                };
                 Ok(Value::float(offset))
             }
             _ => return Err(VMError::undefined_op("-", arg0, self_val)),
@@ -223,12 +224,12 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time + Duration::seconds(i);
+            let res = time.checked_add(seconds(i)?)?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
             let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time + Duration::nanoseconds(offset);
+            let res = time.checked_add(Duration::nanoseconds(offset))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         _ => return Err(VMError::undefined_op("+", arg0, self_val)),
-- 
2.43.0


From 324fb281072e24747bfa1e12a52a7154450eb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 110/127] fix: a huge left shift aborted the process

---
 ruruby/src/arith.rs           | 34 ++++++++++++++++++++--------------
 ruruby/src/builtin/integer.rs |  4 ++--
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index bd575ba..63fae16 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -226,9 +226,9 @@ pub fn cmp_bignum(lhsb: &BigInt, rhs: Value) -> Option<std::cmp::Ordering> {
 /// ```
 pub fn shl_fixnum(lhs: i64, rhs: i64) -> VMResult {
     if rhs >= 0 {
-        Ok(shl_fixnum_sub(lhs, rhs))
+        shl_fixnum_sub(lhs, rhs)
     } else {
-        Ok(shr_fixnum_sub(lhs, -rhs))
+        Ok(shr_fixnum_sub(lhs, rhs.wrapping_neg()))
     }
 }
 
@@ -246,7 +246,7 @@ pub fn shr_fixnum(lhs: i64, rhs: i64) -> VMResult {
     if rhs >= 0 {
         Ok(shr_fixnum_sub(lhs, rhs))
     } else {
-        Ok(shl_fixnum_sub(lhs, -rhs))
+        shl_fixnum_sub(lhs, rhs.wrapping_neg())
     }
 }
 
@@ -263,18 +263,24 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 }
 
 /// rhs must be a non-negative value.
-fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
-    if rhs < u32::MAX as i64 {
-        match lhs.checked_shl(rhs as u32) {
-            // No significant bit was shifted out.
-            Some(i) if i >> rhs == lhs => Value::integer(i),
-            _ => {
-                let n = lhs.to_bigint().unwrap() << rhs;
-                Value::bignum(n)
-            }
-        }
+fn shl_fixnum_sub(lhs: i64, rhs: i64) -> VMResult {
+    if lhs == 0 {
+        return Ok(Value::integer(0));
+    }
+    let width = shift_width(rhs)?;
+    Ok(match lhs.checked_shl(width) {
+        // No significant bit was shifted out.
+        Some(i) if i >> rhs == lhs => Value::integer(i),
+        _ => Value::bignum(lhs.to_bigint().unwrap() << width),
+    })
+}
+
+/// Check the width of a left shift. `width` must be a non-negative value.
+pub(crate) fn shift_width(width: i64) -> Result<u32, RubyError> {
+    if width < u32::MAX as i64 {
+        Ok(width as u32)
     } else {
-        Value::bignum(lhs.to_bigint().unwrap() << rhs)
+        Err(RubyError::runtime("Shift width too big"))
     }
 }
 
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 0d39a04..423e14f 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -209,7 +209,7 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 if rhs >= 0 {
                     Ok(Value::bignum(lhs >> rhs))
                 } else {
-                    Ok(Value::bignum(lhs << -rhs))
+                    Ok(Value::bignum(lhs << arith::shift_width(-rhs)?))
                 }
             }
             None => shr_bignum(self_val, rhs),
@@ -244,7 +244,7 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         match rhs.as_fixnum() {
             Some(rhs) => {
                 if rhs >= 0 {
-                    Ok(Value::bignum(lhs << rhs))
+                    Ok(Value::bignum(lhs << arith::shift_width(rhs)?))
                 } else {
                     Ok(Value::bignum(lhs >> -rhs))
                 }
-- 
2.43.0


From 4201e82432b7f69faeeafe71f04d965cc8922ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 111/127] fix: an exception raised at an instruction without a
 location panicked

---
 ruruby/src/globals/method.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index ec30e70..47d095d 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -613,16 +613,20 @@ impl ISeqInfo {
     }
 
     pub fn get_loc(&self, pc: ISeqPos) -> Loc {
-        match self.iseq_sourcemap.iter().find(|x| x.0 == pc) {
-            Some((_, loc)) => *loc,
-            None => {
-                panic!(
-                    "Bad sourcemap. pc={} {:?}",
-                    pc.into_usize(),
-                    self.iseq_sourcemap
-                );
-            }
-        }
+        // An instruction without a location of its own belongs to the code around it.
+        let pos = pc.into_usize();
+        self.iseq_sourcemap
+            .iter()
+            .find(|x| x.0 == pc)
+            .or_else(|| {
+                self.iseq_sourcemap
+                    .iter()
+                    .filter(|x| x.0.into_usize() < pos)
+                    .max_by_key(|x| x.0.into_usize())
+            })
+            .or_else(|| self.iseq_sourcemap.first())
+            .map(|x| x.1)
+            .unwrap_or(Loc(0, 0))
     }
 }
 
-- 
2.43.0


From 07daf7c7759ff2de0d3ef41eb30c483b4a1c6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 112/127] fix: Array#concat with the receiver itself read freed
 memory

---
 ruruby/src/builtin/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index f122f01..0b61eb4 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -350,9 +350,9 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn concat(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = &mut *self_val.into_array();
-    let rhs = &**vm[0].expect_array("Argument")?;
-    lhs.extend_from_slice(rhs);
+    // The argument may be the receiver.
+    let rhs = vm[0].expect_array("Argument")?.to_vec();
+    self_val.into_array().extend_from_slice(&rhs);
     Ok(self_val)
 }
 
-- 
2.43.0


From 8cd4fa61d806d555eedc11fec97d1f63760506d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 113/127] fix: Array#map! and <=> panicked when the array
 became shorter during the call

---
 ruruby/src/builtin/array.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 0b61eb4..48208bb 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -220,29 +220,17 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(aref) => aref,
         None => return Ok(Value::nil()),
     };
-    if lhs.len() >= rhs.len() {
-        for (i, rhs_v) in rhs.iter().enumerate() {
-            match vm.eval_compare(*rhs_v, lhs[i])?.as_fixnum() {
-                Some(0) => {}
-                Some(ord) => return Ok(Value::fixnum(ord)),
-                None => return Ok(Value::nil()),
-            }
-        }
-        if lhs.len() == rhs.len() {
-            Ok(Value::fixnum(0))
-        } else {
-            Ok(Value::fixnum(1))
-        }
-    } else {
-        for (i, lhs_v) in lhs.iter().enumerate() {
-            match vm.eval_compare(rhs[i], *lhs_v)?.as_fixnum() {
-                Some(0) => {}
-                Some(ord) => return Ok(Value::fixnum(ord)),
-                None => return Ok(Value::nil()),
-            }
+    // `<=>` of an element may change the arrays.
+    let mut i = 0;
+    while i < lhs.len() && i < rhs.len() {
+        match vm.eval_compare(rhs[i], lhs[i])?.as_fixnum() {
+            Some(0) => {}
+            Some(ord) => return Ok(Value::fixnum(ord)),
+            None => return Ok(Value::nil()),
         }
-        Ok(Value::fixnum(-1))
+        i += 1;
     }
+    Ok(Value::from_ord(Some(lhs.len().cmp(&rhs.len()))))
 }
 
 fn push(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
@@ -427,7 +415,12 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut i = 0;
     let f = vm.eval_block_map1(block);
     while i < aref.len() {
-        aref[i] = f(vm, aref[i])?;
+        let val = f(vm, aref[i])?;
+        // The block may have changed the length.
+        if i >= aref.len() {
+            aref.resize(i + 1, Value::nil());
+        }
+        aref[i] = val;
         i += 1;
     }
 
-- 
2.43.0


From 38846f89dc936c088205c21d4e00f2f6bec01963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 114/127] fix: Hash#sort sorted pairs which were already
 collected

---
 ruruby/src/builtin/hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 38a01ca..f6a7270 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -290,6 +290,7 @@ fn sort(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         let ary = vec![k, v];
         vec.push(Value::array_from(ary));
     }
+    vm.temp_extend_from_slice(&vec);
     vm.sort_array(&mut vec)?;
     Ok(Value::array_from(vec))
 }
-- 
2.43.0


From 551235f52feb22265bb884bc774707e4a0769469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:49 +0000
Subject: [PATCH 115/127] fix: Array#join read a nested array which was dropped
 during the call

---
 ruruby/src/builtin/array.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 48208bb..7a6adb7 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -871,6 +871,8 @@ fn join_elems(
         return Err(RubyError::argument("Recursive array join."));
     }
     outer.push(ary.id());
+    // to_s of an element may drop the array from the one it is in.
+    vm.temp_push(ary);
     for elem in ary.into_array().live_iter() {
         if elem.as_array().is_some() {
             join_elems(vm, elem, sep, outer, res, is_first)?;
-- 
2.43.0


From 66b0d3b5235ca4c44ab9de9c2d26d4fb107b0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:55 +0000
Subject: [PATCH 116/127] monitor: GC.stat reports the bytes in use (cfg
 ruruby_monitor only)

---
 ruruby/src/builtin/gc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruruby/src/builtin/gc.rs b/ruruby/src/builtin/gc.rs
index eac7a29..7baefa7 100644
--- a/ruruby/src/builtin/gc.rs
+++ b/ruruby/src/builtin/gc.rs
@@ -60,6 +60,11 @@ fn stat(_: &mut VM, _: Value, _: &Args2) -> VMResult {
         total_allocated_objects,
         ALLOC.with(|m| m.borrow().total_allocated())
     );
+    #[cfg(ruruby_monitor)]
+    stat_insert!(
+        malloced,
+        MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst)
+    );
     //stat_insert!(malloced, MALLOC_AMOUNT.with(|x| x.borrow().clone()));
     let res = Value::hash_from_map(hash);
     Ok(res)
-- 
2.43.0


From db9f0b863e8bb5074f0ea9e3114d56d802a9fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 117/127] fix: every fiber and enumerator leaked an empty code
 object

---
 ruruby/src/vm/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index d68db8a..050c23d 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -160,7 +160,7 @@ impl VM {
             pc: ISeqPtr::default(),
             lfp: LocalFrame::default(),
             cfp: ControlFrame::default(),
-            iseq: ISeqRef::default(),
+            iseq: self.iseq,
             handle: None,
             sp_last_match: None,
             sp_post_match: None,
-- 
2.43.0


From e354fb768b177fbca709df18d562ec11eff7c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 118/127] fix: the value of the last break, return or raise was
 kept alive until the next one

---
 ruruby/src/globals.rs            |  5 +++++
 ruruby/src/vm/executor.rs        | 10 +++++-----
 ruruby/src/vm/executor/method.rs |  3 +--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 4641af3..5e4e6cb 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -59,6 +59,11 @@ impl GCRoot<RValue> for Globals {
 }
 
 impl Globals {
+    /// Take the value of a jump or an exception, so that it is not kept alive any longer.
+    pub(crate) fn take_val(&mut self) -> Value {
+        std::mem::replace(&mut self.val, Value::nil())
+    }
+
     pub(crate) fn new() -> Self {
         use builtin::*;
         EssentialClass::init();
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 050c23d..cc637e9 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -452,7 +452,7 @@ impl VM {
                             let val = self
                                 .globals
                                 .from_exception(&err)
-                                .unwrap_or(self.globals.val);
+                                .unwrap_or_else(|| self.globals.take_val());
                             #[cfg(feature = "trace")]
                             eprintln!(":::: Exception({:?})", val);
                             if entry.is_ensure {
@@ -472,7 +472,7 @@ impl VM {
                                 #[cfg(feature = "trace")]
                                 eprintln!("<+++ {:?}", err.kind);
                                 return if is_dest {
-                                    Ok(self.globals.val)
+                                    Ok(self.globals.take_val())
                                 } else {
                                     Err(err)
                                 };
@@ -484,7 +484,7 @@ impl VM {
                                 || err.kind == RubyErrorKind::BlockReturn(self.cur_frame().0)
                             {
                                 if use_value {
-                                    let val = self.globals.val;
+                                    let val = self.globals.take_val();
                                     self.stack_push(val);
                                 }
                                 break;
@@ -499,8 +499,8 @@ impl VM {
     /// Push an exception or a jump, which waits until an ensure clause ends.
     fn push_pending(&mut self, err: &RubyError, val: Value) {
         let (val, kind, frame) = match err.kind {
-            RubyErrorKind::BlockReturn(frame) => (self.globals.val, 1, frame),
-            RubyErrorKind::MethodReturn(frame) => (self.globals.val, 2, frame),
+            RubyErrorKind::BlockReturn(frame) => (self.globals.take_val(), 1, frame),
+            RubyErrorKind::MethodReturn(frame) => (self.globals.take_val(), 2, frame),
             _ => (val, 0, 0),
         };
         self.stack_push(val);
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index dc39577..927f913 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -588,8 +588,7 @@ impl VM {
             Err(err) => {
                 // `break` in the block which was given to this method.
                 if err.kind == RubyErrorKind::BlockReturn(self.cur_frame().0) {
-                    let val = self.globals.val;
-                    Ok(val)
+                    Ok(self.globals.take_val())
                 } else {
                     Err(err)
                 }
-- 
2.43.0


From 57fce35e41cb4c665c8a97d90f5793917c4a7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:49 +0000
Subject: [PATCH 119/127] fix: Dir.glob took pattern characters as regular
 expression syntax and panicked on malformed patterns

---
 ruruby/src/builtin/dir.rs | 45 ++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/builtin/dir.rs b/ruruby/src/builtin/dir.rs
index 075c206..efc1c9c 100644
--- a/ruruby/src/builtin/dir.rs
+++ b/ruruby/src/builtin/dir.rs
@@ -44,6 +44,8 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     let mut pattern = pat_val.expect_string("1st arg")?.chars().peekable();
     let mut glob: Vec<String> = vec![];
     let mut charbuf = vec!['^'];
+    let mut in_class = false;
+    let mut braces = 0;
     let (fullpath, path) = if pattern.peek() == Some(&'/') {
         pattern.next();
         (PathBuf::from("/"), PathBuf::from("/"))
@@ -53,7 +55,25 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     loop {
         match pattern.next() {
             Some(ch) => match ch {
+                ch if in_class && ch != ']' => charbuf.push(ch),
                 '?' => charbuf.push('.'),
+                '[' => {
+                    charbuf.push('[');
+                    in_class = true;
+                }
+                ']' if in_class => {
+                    charbuf.push(']');
+                    in_class = false;
+                }
+                '{' if !in_class => {
+                    charbuf.extend("(?:".chars());
+                    braces += 1;
+                }
+                '}' if braces > 0 => {
+                    charbuf.push(')');
+                    braces -= 1;
+                }
+                ',' if braces > 0 => charbuf.push('|'),
                 '*' => {
                     if charbuf.len() == 1 {
                         if pattern.peek() == Some(&'*') {
@@ -65,11 +85,9 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
                                 continue;
                             }
                         }
-                        charbuf.append(&mut r#"(?:[^\.].*)?"#.chars().collect());
-                    } else {
-                        charbuf.push('.');
-                        charbuf.push('*');
                     }
+                    charbuf.push('.');
+                    charbuf.push('*');
                 }
                 '.' => {
                     charbuf.push('\\');
@@ -80,7 +98,7 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
                     glob.push(charbuf.iter().collect());
                     charbuf = vec!['^'];
                 }
-                _ => charbuf.push(ch),
+                _ => charbuf.extend(regex::escape(&ch.to_string()).chars()),
             },
             None => {
                 if !charbuf.is_empty() {
@@ -91,16 +109,18 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
             }
         }
     }
-    let glob: Vec<_> = glob
+    let glob: Result<Vec<_>, regex::Error> = glob
         .iter()
         .map(|s| {
             if s == "*" {
-                None
+                Ok(None)
             } else {
-                Some(regex::Regex::new(s).unwrap())
+                Ok(Some(regex::Regex::new(s)?))
             }
         })
         .collect();
+    // A pattern which is not well-formed matches nothing.
+    let glob = glob.unwrap_or_default();
     if glob.is_empty() {
         return Ok(Value::array_empty());
     }
@@ -115,6 +135,11 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     ))
 }
 
+/// A leading dot must be matched by a dot of the pattern.
+fn is_match(re: &regex::Regex, name: &str) -> bool {
+    (!name.starts_with('.') || re.as_str().starts_with(r"^\.")) && re.is_match(name)
+}
+
 fn traverse_dir(
     full_path: &PathBuf,
     path: &PathBuf,
@@ -140,14 +165,14 @@ fn traverse_dir(
         let name_cow = name.to_string_lossy();
         let state = match &glob[level] {
             Some(re) => {
-                if re.find(&name_cow).is_none() {
+                if !is_match(re, &name_cow) {
                     continue;
                 } else {
                     MatchState::Match
                 }
             }
             None => match glob.get(level + 1) {
-                Some(Some(re)) if re.find(&name_cow).is_some() => MatchState::NextMatch,
+                Some(Some(re)) if is_match(re, &name_cow) => MatchState::NextMatch,
                 _ => MatchState::WildMatch,
             },
         };
-- 
2.43.0


From 949e3bfcdeab846280c61c5914044a34f78c078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:49 +0000
Subject: [PATCH 120/127] fix: File.join, basename, extname, dirname,
 expand_path and executable? differ from Ruby

---
 ruruby/src/builtin/file.rs | 138 ++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 54 deletions(-)

diff --git a/ruruby/src/builtin/file.rs b/ruruby/src/builtin/file.rs
index e63d7be..fcf0146 100644
--- a/ruruby/src/builtin/file.rs
+++ b/ruruby/src/builtin/file.rs
@@ -41,6 +41,21 @@ fn string_to_path(_: &mut VM, mut string: Value, msg: &str) -> Result<PathBuf, R
     Ok(path)
 }
 
+/// Divide `path` into the directory and the last component.
+fn last_component(path: &str) -> (&str, &str) {
+    let stripped = path.trim_end_matches('/');
+    if stripped.is_empty() {
+        return if path.is_empty() { (".", "") } else { ("/", "/") };
+    }
+    match stripped.rfind('/') {
+        None => (".", stripped),
+        Some(pos) => {
+            let dir = stripped[..pos].trim_end_matches('/');
+            (if dir.is_empty() { "/" } else { dir }, &stripped[pos + 1..])
+        }
+    }
+}
+
 /// Canonicalize PathBuf.
 fn canonicalize_path(_: &mut VM, path: PathBuf) -> Result<PathBuf, RubyError> {
     match path.canonicalize() {
@@ -71,7 +86,7 @@ pub(crate) fn string_to_canonicalized_path(
 // Class methods
 
 fn join(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
-    fn flatten(vm: &mut VM, path: &mut String, mut val: Value) -> Result<(), RubyError> {
+    fn flatten(vm: &mut VM, path: &mut Option<String>, mut val: Value) -> Result<(), RubyError> {
         match val.as_array() {
             Some(ainfo) => {
                 for v in ainfo.iter() {
@@ -79,53 +94,51 @@ fn join(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
                 }
             }
             None => {
-                if !path.is_empty() && !path.ends_with('/') {
-                    path.push('/');
-                }
                 let s = val.expect_string("Args")?;
-                path.push_str(if !path.is_empty() && s.starts_with('/') {
-                    &s[1..]
-                } else {
-                    s
-                });
+                match path {
+                    None => *path = Some(s.to_string()),
+                    Some(path) => match (path.ends_with('/'), s.strip_prefix('/')) {
+                        (true, Some(s)) => path.push_str(s),
+                        (false, None) => {
+                            path.push('/');
+                            path.push_str(s);
+                        }
+                        _ => path.push_str(s),
+                    },
+                }
             }
         }
         Ok(())
     }
-    let mut path = String::new();
+    let mut path = None;
     for i in 0..args.len() {
         flatten(vm, &mut path, vm[i])?;
     }
-    Ok(Value::string(path))
+    Ok(Value::string(path.unwrap_or_default()))
 }
 
 fn basename(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let basename = match filename.file_name() {
-        Some(ostr) => Value::string(ostr.to_string_lossy()),
-        None => Value::nil(),
-    };
-    Ok(basename)
+    let mut arg0 = vm[0];
+    let basename = last_component(arg0.expect_string("1st arg")?).1.to_string();
+    Ok(Value::string(basename))
 }
 
 fn extname(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let extname = match filename.extension() {
-        Some(ostr) => format!(".{}", ostr.to_string_lossy()),
-        None => "".to_string(),
+    let mut arg0 = vm[0];
+    let basename = last_component(arg0.expect_string("1st arg")?).1;
+    let extname = match basename.rfind('.') {
+        Some(pos) if pos != 0 && basename != ".." => basename[pos..].to_string(),
+        _ => "".to_string(),
     };
     Ok(Value::string(extname))
 }
 
 fn dirname(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let dirname = match filename.parent() {
-        Some(ostr) => conv_pathbuf(&ostr.to_path_buf()),
-        None => "".to_string(),
-    };
+    let mut arg0 = vm[0];
+    let dirname = last_component(arg0.expect_string("1st arg")?).0.to_string();
     Ok(Value::string(dirname))
 }
 
@@ -211,43 +224,43 @@ fn write(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::integer(contents.len() as i64))
 }
 
-/// File.expand_path(path, default_dir = '.') -> String
-fn expand_path(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
-    let len = args.len();
-    args.check_args_range(1, 2)?;
-    let current_dir = std::env::current_dir()
-        .or_else(|_| Err(RubyError::runtime("Failed to get current directory.")))?;
-    let home_dir = dirs::home_dir().ok_or(RubyError::internal("Failed to get home directory."))?;
-    let path = if len == 1 {
-        string_to_path(vm, vm[0], "1st arg")?
-    } else {
-        let mut path = string_to_path(vm, vm[1], "2nd arg")?;
-        let rel_path = string_to_path(vm, vm[0], "1st arg")?;
-        path.push(rel_path);
-        path
-    };
-
-    let mut res_path = PathBuf::new();
-    res_path.push(current_dir);
-
-    for elem in path.components() {
+/// Apply `path` to the absolute path `base`.
+fn expand(base: &mut PathBuf, path: &str, home_dir: &Path) {
+    for (i, elem) in Path::new(path).components().enumerate() {
         match elem {
             Component::CurDir => {}
-            Component::Normal(comp) if comp == "~" => {
-                res_path.clear();
-                res_path.push(home_dir.clone());
+            Component::Normal(comp) if i == 0 && comp == "~" => {
+                base.clear();
+                base.push(home_dir);
             }
-            Component::Normal(comp) => res_path.push(comp),
+            Component::Normal(comp) => base.push(comp),
             Component::ParentDir => {
-                res_path.pop();
+                base.pop();
             }
             Component::RootDir => {
-                res_path.clear();
-                res_path.push(Component::RootDir);
+                base.clear();
+                base.push(Component::RootDir);
             }
             _ => {}
         };
     }
+}
+
+/// File.expand_path(path, default_dir = '.') -> String
+fn expand_path(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
+    let len = args.len();
+    args.check_args_range(1, 2)?;
+    let current_dir = std::env::current_dir()
+        .or_else(|_| Err(RubyError::runtime("Failed to get current directory.")))?;
+    let home_dir = dirs::home_dir().ok_or(RubyError::internal("Failed to get home directory."))?;
+    let mut res_path = current_dir;
+    if len == 2 {
+        let mut arg1 = vm[1];
+        expand(&mut res_path, arg1.expect_string("2nd arg")?, &home_dir);
+    }
+    let mut arg0 = vm[0];
+    expand(&mut res_path, arg0.expect_string("1st arg")?, &home_dir);
+
     #[cfg(windows)]
     let res_path = PathBuf::from(
         std::env::var("HOMEDRIVE")
@@ -266,10 +279,27 @@ fn exist(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
 
 fn executable(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let b = string_to_canonicalized_path(vm, vm[0], "1st arg").is_ok();
+    let b = match string_to_canonicalized_path(vm, vm[0], "1st arg") {
+        Ok(path) => is_executable(&path),
+        Err(_) => false,
+    };
     Ok(Value::bool(b))
 }
 
+#[cfg(unix)]
+fn is_executable(path: &Path) -> bool {
+    use std::os::unix::fs::PermissionsExt;
+    match path.metadata() {
+        Ok(meta) => meta.permissions().mode() & 0o111 != 0,
+        Err(_) => false,
+    }
+}
+
+#[cfg(not(unix))]
+fn is_executable(path: &Path) -> bool {
+    path.exists()
+}
+
 fn directory(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
     let b = match string_to_canonicalized_path(vm, vm[0], "1st arg") {
-- 
2.43.0


From dffbc95b006521b9830dce3b2ce1f2bcb66c04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:49 +0000
Subject: [PATCH 121/127] fix: the class a def defines into was taken from
 callers on the stack instead of the enclosing class body

---
 ruruby/src/vm/executor.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index cc637e9..e91e3c1 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -535,22 +535,11 @@ impl VM {
 
     /// Get class list in the current context.
     ///
-    /// At first, this method searches the class list of outer context,
-    /// and adds a class given as an argument `new_class` on the top of the list.
-    /// return None in top-level.
+    /// This is the list of the classes which enclose the current code (not those of its callers),
+    /// with a class given as an argument `new_module` added on the top of it.
     fn get_class_defined(&self, new_module: impl Into<Module>) -> Vec<Module> {
-        let mut cfp = Some(self.cfp);
-        let mut v = vec![new_module.into()];
-        while let Some(f) = cfp {
-            if f.is_ruby_func() {
-                let iseq = f.ep().iseq();
-                if iseq.is_classdef() {
-                    v.push(Module::new(f.self_value()));
-                }
-            }
-            cfp = f.prev();
-        }
-        v.reverse();
+        let mut v = self.get_method_iseq().class_defined.clone();
+        v.push(new_module.into());
         v
     }
 }
-- 
2.43.0


From bc73ad8f50ac4ff013c974e55124f5df072698bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:49 +0000
Subject: [PATCH 122/127] fix: a file that failed to load could not be required
 again, load marked files as required, and .rb replaced the extension of
 required names

---
 ruruby/src/builtin/kernel.rs     | 10 ++++++--
 ruruby/src/globals.rs            |  4 +++
 ruruby/src/vm/executor/loader.rs | 44 ++++++++++++++++++++++++--------
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index bc0e2df..35b159f 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -146,7 +146,7 @@ fn require_relative(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             path.push(p);
         }
     }
-    path.set_extension("rb");
+    let path = VM::with_rb_extension(path);
     Ok(Value::bool(vm.load_exec(&path, false)?))
 }
 
@@ -157,7 +157,8 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::argument("file name must be a string.")),
     };
     let path = PathBuf::from(file_name);
-    if path.exists() {
+    let explicit = path.is_absolute() || path.starts_with(".") || path.starts_with("..");
+    if explicit && path.exists() {
         vm.load_exec(&path, true)?;
         return Ok(Value::true_val());
     }
@@ -176,6 +177,11 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             return Ok(Value::true_val());
         }
     }
+    // The current directory comes after the load path.
+    if path.exists() {
+        vm.load_exec(&path, true)?;
+        return Ok(Value::true_val());
+    }
     Err(RubyError::load(format!(
         "Can not load such file -- {:?}",
         file_name
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 5e4e6cb..add5448 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -210,6 +210,10 @@ impl Globals {
         }
     }
 
+    pub(crate) fn remove_source_file(&mut self, file_path: &Path) {
+        self.source_files.retain(|path| path != file_path);
+    }
+
     pub(crate) fn from_exception(&self, err: &RubyError) -> Option<Value> {
         let err = err.clone();
         let val = match &err.kind {
diff --git a/ruruby/src/vm/executor/loader.rs b/ruruby/src/vm/executor/loader.rs
index 1475d56..3c28578 100644
--- a/ruruby/src/vm/executor/loader.rs
+++ b/ruruby/src/vm/executor/loader.rs
@@ -18,9 +18,8 @@ impl VM {
     }
 
     pub(crate) fn require(&mut self, file_name: &str) -> Result<bool, RubyError> {
-        let mut path = PathBuf::from(file_name);
-        if path.is_absolute() {
-            path.set_extension("rb");
+        let mut path = Self::with_rb_extension(PathBuf::from(file_name));
+        if path.is_absolute() || path.starts_with(".") || path.starts_with("..") {
             if path.exists() {
                 return self.load_exec(&path, false);
             }
@@ -38,7 +37,7 @@ impl VM {
         for path in ainfo.iter_mut() {
             let mut base_path = PathBuf::from(path.expect_string("LOAD_PATH($:)")?);
             base_path.push(file_name);
-            base_path.set_extension("rb");
+            base_path = Self::with_rb_extension(base_path);
             if base_path.exists() {
                 return self.load_exec(&base_path, false);
             }
@@ -65,16 +64,41 @@ impl VM {
             Ok(path) => path,
             Err(ioerr) => {
                 let msg = format!("File not found. {:?}\n{}", path, ioerr);
-                return Err(RubyError::runtime(msg));
+                return Err(RubyError::load(msg));
             }
         };
-        let res = self.globals.add_source_file(&absolute_path);
-        if !allow_repeat && res.is_none() {
+        if allow_repeat {
+            self.run_file(&absolute_path)?;
+            return Ok(true);
+        }
+        if self.globals.add_source_file(&absolute_path).is_none() {
             return Ok(false);
         }
-        let program = self.load_file(&absolute_path)?;
-        self.run(absolute_path, program)?;
-        Ok(true)
+        match self.run_file(&absolute_path) {
+            Ok(_) => Ok(true),
+            Err(err) => {
+                // The file was not loaded completely, so that it can be required again.
+                self.globals.remove_source_file(&absolute_path);
+                Err(err)
+            }
+        }
+    }
+
+    fn run_file(&mut self, absolute_path: &Path) -> VMResult {
+        let program = load_file(absolute_path).map_err(|err| {
+            RubyError::load(format!("Cannot open file. '{:?}'\n{}", absolute_path, err))
+        })?;
+        self.run(absolute_path, program)
+    }
+
+    /// Append ".rb" to `path`, unless it is there.
+    pub(crate) fn with_rb_extension(path: PathBuf) -> PathBuf {
+        if path.extension().map_or(false, |ext| ext == "rb") {
+            return path;
+        }
+        let mut path = path.into_os_string();
+        path.push(".rb");
+        PathBuf::from(path)
     }
 }
 
-- 
2.43.0


From 62b245dc610a85daef5b493bfc72e4b4294610da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:50 +0000
Subject: [PATCH 123/127] fix: elements of an already expanded splat were freed
 when to_a of a later splat collected garbage

---
 ruruby/src/vm/executor.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index e91e3c1..bb4d3a3 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -893,10 +893,7 @@ impl VM {
         }
         let res = self.eval_send0(IdentId::get_id("to_a"), val)?;
         match res.as_array() {
-            Some(ary) => {
-                self.temp_push(res);
-                Ok(ary.to_vec())
-            }
+            Some(ary) => Ok(ary.to_vec()),
             None if res.is_nil() => Ok(vec![val]),
             None => Err(RubyError::typeerr(format!(
                 "Can't convert {} to Array.",
@@ -936,13 +933,21 @@ impl VM {
 
     fn pop_args_to_array(&mut self, arg_num: usize) -> VMResult {
         let start = self.stack.sp - arg_num;
-        let mut ary = vec![];
+        // `to_a` of a later operand may run a GC.
+        let temp_len = self.temp_len();
         for i in 0..arg_num as isize {
             match start[i].as_splat() {
-                Some(inner) => ary.append(&mut self.splat_to_vec(inner)?),
-                None => ary.push(start[i]),
+                Some(inner) => match self.splat_to_vec(inner) {
+                    Ok(elems) => self.temp_push_vec(&elems),
+                    Err(err) => {
+                        self.temp_stack.truncate(temp_len);
+                        return Err(err);
+                    }
+                },
+                None => self.temp_push(start[i]),
             }
         }
+        let ary = self.temp_pop_vec(temp_len);
         self.stack.sp = start;
         Ok(Value::array_from(ary))
     }
-- 
2.43.0


From c620262854b3120e8d41d27bdcad2ce423cd163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:52 +0000
Subject: [PATCH 124/127] fix: a Method or UnboundMethod object did not keep
 the class it was taken from

---
 ruruby/src/globals/method.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 47d095d..6b204ec 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -676,5 +676,6 @@ impl GC<RValue> for MethodObjInfo {
         if let Some(rec) = self.receiver {
             rec.mark(alloc);
         }
+        self.owner.mark(alloc);
     }
 }
-- 
2.43.0


From 9bf83cd90f1049414353562286c4b25e64e6c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:51 +0000
Subject: [PATCH 125/127] fix: keywords and a block were freed while splat
 operands of the call were expanded, and the results of to_proc were kept for
 good

---
 ruruby/src/vm/executor.rs          | 20 +++++++++++++++++++-
 ruruby/src/vm/executor/method.rs   |  3 +++
 ruruby/src/vm/executor/opt_core.rs |  7 +++----
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index bb4d3a3..c210f32 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -903,7 +903,25 @@ impl VM {
     }
 
     /// Treat the topmost `arg_num` values as arguments: values with splat operator are broken up in place.
-    fn pop_args_to_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
+    ///
+    /// `keyword` and `block` are to be passed with them. `to_a` of a splat operand may run a GC.
+    fn pop_args_to_args(
+        &mut self,
+        arg_num: usize,
+        keyword: Value,
+        block: &Option<Block>,
+    ) -> Result<Args2, RubyError> {
+        let temp_len = self.temp_len();
+        self.temp_push(keyword);
+        if let Some(Block::Proc(proc)) = block {
+            self.temp_push(*proc);
+        }
+        let res = self.expand_args(arg_num);
+        self.temp_stack.truncate(temp_len);
+        res
+    }
+
+    fn expand_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
         let arg_start = self.stack.sp - arg_num;
         let mut p = arg_start;
         while p < self.stack.sp {
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 927f913..3ff1da7 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -574,6 +574,9 @@ impl VM {
         self.push_native_frame(args.len());
 
         let temp_len = self.temp_len();
+        if let Some(Block::Proc(proc)) = &args.block {
+            self.temp_push(*proc);
+        }
         let res = func(self, self.self_value(), args);
         self.temp_stack.truncate(temp_len);
 
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 28ae318..fb98741 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -491,7 +491,7 @@ impl VM {
                         let args_num = self.pc.read32() as usize;
                         let flag = self.pc.read_argflag();
                         let keyword = self.handle_hash_args(flag)?;
-                        let mut args = self.pop_args_to_args(args_num)?;
+                        let mut args = self.pop_args_to_args(args_num, keyword, &None)?;
                         args.kw_arg = keyword;
                         dispatch!(self.vm_yield(&args), true);
                     }
@@ -651,7 +651,6 @@ impl VM {
                 Some(id.into())
             } else {
                 let res = self.eval_send0(IdentId::get_id("to_proc"), val)?;
-                self.temp_push(res);
                 if res.as_proc().is_none() {
                     return Err(RubyError::internal(format!(
                         "Must be Proc. {:?}:{}",
@@ -717,7 +716,7 @@ impl VM {
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
         let mut args = if flag.has_splat() {
-            self.pop_args_to_args(args_num)?
+            self.pop_args_to_args(args_num, keyword, &block)?
         } else {
             Args2::new(args_num)
         };
@@ -791,7 +790,7 @@ impl VM {
                 // When `super` has no arguments, use arguments which were passed to the current method.
                 self.push_current_args()?
             } else {
-                let mut args = self.pop_args_to_args(args_num)?;
+                let mut args = self.pop_args_to_args(args_num, keyword, &block)?;
                 if flag.has_delegate() {
                     if let Some(v) = self.cur_delegate() {
                         let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
-- 
2.43.0


From a581eee9dfde812576593efd961a15f22d4ef431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:39 +0000
Subject: [PATCH 126/127] fix: evaluate the start of a range before its end

---
 ruruby/src/codegen.rs              | 2 +-
 ruruby/src/vm/executor/opt_core.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index de8a3aa..cfa399f 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1143,8 +1143,8 @@ impl Codegen {
                     }
                 } else {
                     iseq.gen_val(Value::bool(exclude_end));
-                    self.gen(globals, iseq, *end, true)?;
                     self.gen(globals, iseq, *start, true)?;
+                    self.gen(globals, iseq, *end, true)?;
                     iseq.push(Inst::CREATE_RANGE);
                     self.save_loc(iseq, node_loc);
                     if !use_value {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index fb98741..3f32a99 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -388,8 +388,8 @@ impl VM {
                         self.stack_push(val);
                     }
                     Inst::CREATE_RANGE => {
-                        let start = self.stack_pop();
                         let end = self.stack_pop();
+                        let start = self.stack_pop();
                         let exclude_end = self.stack_pop().to_bool();
                         let range = self.create_range(start, end, exclude_end)?;
                         self.stack_push(range);
-- 
2.43.0


From 18ade60f644038a1964445e8a3ec3c481109fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:55 +0000
Subject: [PATCH 127/127] fix: keep the bounds of a range alive while they are
 compared

---
 ruruby/src/vm/executor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index c210f32..3d36667 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -971,7 +971,13 @@ impl VM {
     }
 
     pub(crate) fn create_range(&mut self, start: Value, end: Value, exclude_end: bool) -> VMResult {
-        if self.eval_compare(start, end)?.is_nil() {
+        // `<=>` of the program may collect garbage.
+        let len = self.temp_len();
+        self.temp_push(start);
+        self.temp_push(end);
+        let ord = self.eval_compare(start, end);
+        self.temp_stack.truncate(len);
+        if ord?.is_nil() {
             return Err(RubyError::argument("Bad value for range."));
         }
         Ok(Value::range(start, end, exclude_end))
-- 
2.43.0

