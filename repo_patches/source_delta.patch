From fba4b901007313683b1fd9f6c39ef284eab3574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 01/19] fix: trimmer totals overflowed 16 bits when built from
 an array, list or update

---
 src/trimmer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..1915fd1 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
@@ -83,7 +83,7 @@ impl Trimmer {
 
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
-            let t: i32 = self.values[i] as i32 + tick as i32;
+            let t: i32 = tick.saturating_add(self.values[i] as i32);
             if (i16::MAX as i32) < t {
                 tick = t - i16::MAX as i32;
                 self.values[i] = i16::MAX;
-- 
2.43.0


From ade3c748e2aad975551102aedc907c2ba097a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 02/19] fix: a rate trimmer's total disagreed with its parts
 when they were limited or rounded

---
 src/trimmer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index 1915fd1..6c40a5a 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array([
+            PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)
+        ])
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 10607a17d1e540c1113941419a2ac832a609fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 03/19] fix: a percentage lost a permille when converted to a
 fraction and back

---
 src/percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..600cd9b 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -57,7 +57,7 @@ impl From<f32> for PercentU16 {
         } else if MAX_F32_VALUE < rate {
             PercentU16 { value: MAX_VALUE as u16 }
         } else {
-            let i: i32 = (rate * 1000.0) as i32; // 1.0 means 100% = 100.0% = 1000
+            let i: i32 = (rate * 1000.0).round() as i32; // 1.0 means 100% = 100.0% = 1000
             PercentU16 { value: i as u16 }
         }
     }
-- 
2.43.0


From 365eab68b367d20e5af4dffdb0b10fb49035c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 04/19] fix: an octave just above the highest one crashed
 instead of being refused

---
 src/octave.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..39046ff 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,11 +35,11 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From a6393e4a2ff92ca6a8ea828e79f0f758d751c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 05/19] fix: tempos out of range wrapped around when dragged,
 crashed when typed in and could be zero

---
 src/tempo.rs      | 8 ++++++--
 src/text_input.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..99cdc64 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -36,6 +36,8 @@ impl TempoValue {
     pub const fn new(value: u16) -> Self {
         if MAX_TEMPO_VALUE < value {
             panic!("Too large value.");
+        } else if value < MIN_TEMPO_VALUE {
+            MIN_TEMPO
         } else {
             TempoValue(value)
         }
@@ -99,8 +101,10 @@ impl Tempo {
 
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             start_tick: (self.start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
+             value: TempoValue::safe_new(
+                (self.value.as_u16() as i64 + tempo_delta as i64).clamp(0, MAX_TEMPO_VALUE as i64) as u16
+             ),
              ..*self
         }
     }
diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..abde235 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -83,7 +83,7 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(TempoValue::safe_new(u))))
         }
     }
 }
-- 
2.43.0


From 30cc2b35a5b1125d1f5fcd4583ca10fb53489424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 06/19] fix: dragging an item before tick zero sent it to the
 far end of the tune

---
 src/bar.rs      | 2 +-
 src/ctrl_chg.rs | 2 +-
 src/note.rs     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..40cb22f 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -243,7 +243,7 @@ impl Bar {
 
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: ((self.start_tick as i64) + tick_delta as i64) as u32,
+             start_tick: ((self.start_tick as i64) + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
              ..*self
         }
     }
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index 2d704ad..233a882 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -16,7 +16,7 @@ impl CtrlChg {
     
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
+             start_tick: (self.start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
              ..*self
         }
     }
diff --git a/src/note.rs b/src/note.rs
index a247256..2c552f5 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -138,7 +138,7 @@ impl Note {
     }
     
     pub fn drag(&self, tick_delta: i32, score_offset_delta: i32) -> Self {
-        let tick = self.base_start_tick as i64 + tick_delta as i64;
+        let tick = (self.base_start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64);
         let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap();
         Self {
             base_start_tick: tick as u32,
@@ -148,7 +148,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From bcc213cf080427357e0481d09c6783192dc5a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 07/19] fix: a location with a huge number or non-ASCII digits
 crashed the parser

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..abf51fa 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -27,11 +27,11 @@ impl Display for Location {
 
 const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(Location {
+            bar_no: c.get(1)?.as_str().parse().ok()?,
+            offset: c.get(2)?.as_str().parse().ok()?,
+        })
     })
 }
 
-- 
2.43.0


From a1de26ea83d993339d1ebeb329e7f91d9ec78e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 08/19] fix: a location far out of range crashed instead of
 being reported as an overflow

---
 src/project.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..c4b6d2d 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -220,7 +220,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -229,12 +229,13 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        loc.bar_no().saturating_mul(self.rhythm.tick_len() as usize).saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        (loc.bar_no() - last_bar_no - 1).saturating_mul(tick_len)
+                            .saturating_add(loc.offset()).saturating_add(last_tick as usize)
                     },
                 };
 
-- 
2.43.0


From 6ee4d316c23e43e183844466b7f4fa81e1e4623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 09/19] fix: a double flat could not be moved to the highest A
 although stepping there worked

---
 src/pitch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..20ee510 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -71,6 +71,7 @@ const DEFAULT: Pitch = Pitch::new(Solfa::A, Octave::Oct4, SharpFlat::Null);
 
 pub const MIN_SCORE_OFFSET: i32 = 0;
 pub const MAX_SCORE_OFFSET: i32 = 74;
+const MAX_FLAT_SCORE_OFFSET: i32 = 75; // A double flat of octave 8 is still a pitch.
 
 impl Pitch {
     pub const fn new(solfa: Solfa, octave: Octave, sharp_flat: SharpFlat) -> Self {
@@ -162,8 +163,8 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
-        if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
+        if score_offset < MIN_SCORE_OFFSET || MAX_FLAT_SCORE_OFFSET < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
 
-- 
2.43.0


From 7eec64445fa5bde701e82a83b29649e106f40aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 10/19] fix: undoing an edit that met existing or missing items
 did not bring back the tune before it

---
 src/project.rs | 216 ++++++++++++++++++++++++++++---------------------
 1 file changed, 124 insertions(+), 92 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c4b6d2d..082d27e 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1,3 +1,4 @@
+use std::collections::{BTreeSet, HashMap};
 use std::rc::Rc;
 
 use klavier_helper::bag_store::{BagStore, BagStoreEvent};
@@ -354,6 +355,60 @@ impl ProjectImpl {
     }
 }
 
+// What a store holds at the ticks an edit touches: taken before the edit it is what undo
+// has to bring back, taken after the edit it is what redo has to bring back.
+fn items_at<T: Clone>(store: &Store<u32, T, ModelChangeMetadata>, ticks: &BTreeSet<u32>) -> Vec<T> {
+    ticks.iter().filter_map(|t| store.find(t).ok().map(|idx| store[idx].1.clone())).collect()
+}
+
+// Picks up notes which really are in the store. The same note can be in the store more than once.
+struct NotePicker<'a> {
+    note_repo: &'a BagStore<u32, Rc<Note>, ModelChangeMetadata>,
+    remaining: HashMap<u32, Vec<Rc<Note>>>,
+}
+
+impl<'a> NotePicker<'a> {
+    fn new(note_repo: &'a BagStore<u32, Rc<Note>, ModelChangeMetadata>) -> Self {
+        Self { note_repo, remaining: HashMap::new() }
+    }
+
+    fn pick(&mut self, note: &Note) -> bool {
+        let tick = note.start_tick();
+        let note_repo = self.note_repo;
+        let remaining = self.remaining.entry(tick).or_insert_with(|| note_repo.get(tick).clone());
+        match remaining.iter().position(|n| **n == *note) {
+            Some(idx) => {
+                remaining.swap_remove(idx);
+                true
+            },
+            None => false,
+        }
+    }
+}
+
+fn bulk_add_items<T: Clone>(
+    store: &mut Store<u32, T, ModelChangeMetadata>, to_add: Vec<(u32, T)>, metadata: ModelChangeMetadata
+) -> (Vec<T>, Vec<T>) {
+    let ticks: BTreeSet<u32> = to_add.iter().map(|(tick, _)| *tick).collect();
+    let removed = items_at(store, &ticks);
+    store.bulk_add(to_add, metadata);
+    (items_at(store, &ticks), removed)
+}
+
+fn change_items<T: Clone>(
+    store: &mut Store<u32, T, ModelChangeMetadata>, from_to: Vec<(u32, (u32, T))>, metadata: ModelChangeMetadata
+) -> (Vec<T>, Vec<T>) {
+    let mut ticks: BTreeSet<u32> = BTreeSet::new();
+    for (from, (to, _)) in from_to.iter() {
+        ticks.insert(*from);
+        ticks.insert(*to);
+    }
+    let removed = items_at(store, &ticks);
+    let from_to: Vec<(&u32, (u32, T))> = from_to.iter().map(|(from, to)| (from, to.clone())).collect();
+    store.change(&from_to, metadata);
+    (items_at(store, &ticks), removed)
+}
+
 pub fn tempo_at(tick: u32, store: &Store<u32, Tempo, ModelChangeMetadata>) -> TempoValue {
     if store.is_empty() {
         DEFAULT_TEMPO
@@ -679,6 +734,8 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
     fn tuplize(&mut self, notes: Vec<Rc<Note>>) {
         let metadata = ModelChangeMetadata::new().with_need_select(true);
         let _ = self.mutate(Box::new(move |proj| {
+            let mut picker = NotePicker::new(&proj.note_repo);
+            let notes: Vec<Rc<Note>> = notes.iter().filter(|n| picker.pick(n)).cloned().collect();
             if 1 < notes.len() {
                 let mut to_remove = Vec::with_capacity(notes.len());
                 for n in notes.iter() {
@@ -707,118 +764,93 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
     }
 
     fn bulk_remove(&mut self, to_remove: Models, metadata: ModelChangeMetadata) {
-        self.add_cmd(ProjectCmd::ModelChanged { added: Models::empty(), removed: to_remove, metadata });
+        let _ = self.mutate(Box::new(move |proj| {
+            let mut removed = Models::empty();
+            for n in to_remove.notes.iter() {
+                removed.notes.extend(proj.note_repo.remove(&n.start_tick(), &Rc::new(n.clone())).map(|n| (*n).clone()));
+            }
+            for b in to_remove.bars.iter() {
+                removed.bars.extend(proj.bar_repo.remove(&b.start_tick).map(|(_, b)| b));
+            }
+            for t in to_remove.tempos.iter() {
+                removed.tempos.extend(proj.tempo_repo.remove(&t.start_tick).map(|(_, t)| t));
+            }
+            for d in to_remove.dumpers.iter() {
+                removed.dumpers.extend(proj.dumper_repo.remove(&d.start_tick).map(|(_, d)| d));
+            }
+            for s in to_remove.softs.iter() {
+                removed.softs.extend(proj.soft_repo.remove(&s.start_tick).map(|(_, s)| s));
+            }
+
+            Ok(ProjectCmd::ModelChanged { added: Models::empty(), removed, metadata })
+        }));
     }
 
-    fn bulk_add(&mut self, mut to_add: Models, metadata: ModelChangeMetadata) {
+    fn bulk_add(&mut self, to_add: Models, metadata: ModelChangeMetadata) {
         let _ = self.mutate(Box::new(move |proj| {
+            let mut added = Models::empty();
             let mut removed = Models::empty();
 
             let mut buf: Vec<(u32, Rc<Note>)> = Vec::with_capacity(to_add.notes.len());
             for n in to_add.notes.iter() {
                 buf.push((n.start_tick(), Rc::new(n.clone())));
-            }   
-            proj.note_repo.bulk_add(buf, metadata);
-    
-            let mut buf = Vec::with_capacity(to_add.bars.len());
-            for b in to_add.bars.iter() {
-                buf.push((b.start_tick, *b));
             }
-            removed.bars = proj.bar_repo.bulk_add(buf, metadata).iter().map(|(_, bar)| *bar).collect();
-    
-            let mut buf = Vec::with_capacity(to_add.tempos.len());
-            for t in to_add.tempos.iter() {
-                buf.push((t.start_tick, *t));
-            }
-            removed.tempos = proj.tempo_repo.bulk_add(buf, metadata).iter().map(|(_, t)| *t).collect();
-    
-    
-            let mut buf = Vec::with_capacity(to_add.dumpers.len());
-            for d in to_add.dumpers.iter() {
-                buf.push((d.start_tick, *d));
-            }
-            removed.dumpers = proj.dumper_repo.bulk_add(buf, metadata).iter().map(|(_, d)| *d).collect();
-    
-            let mut buf = Vec::with_capacity(to_add.softs.len());
-            for s in to_add.softs.iter() {
-                buf.push((s.start_tick, *s));
-            }
-            removed.softs = proj.soft_repo.bulk_add(buf, metadata).iter().map(|(_, s)| *s).collect();
-            
-            let replenished_bars = proj.replenish_bars();
-            to_add.bars.extend(replenished_bars);
-    
-            Ok(ProjectCmd::ModelChanged { added: to_add, removed, metadata })
+            proj.note_repo.bulk_add(buf, metadata);
+            added.notes = to_add.notes.clone();
+
+            (added.bars, removed.bars) = bulk_add_items(
+                &mut proj.bar_repo, to_add.bars.iter().map(|b| (b.start_tick, *b)).collect(), metadata
+            );
+            (added.tempos, removed.tempos) = bulk_add_items(
+                &mut proj.tempo_repo, to_add.tempos.iter().map(|t| (t.start_tick, *t)).collect(), metadata
+            );
+            (added.dumpers, removed.dumpers) = bulk_add_items(
+                &mut proj.dumper_repo, to_add.dumpers.iter().map(|d| (d.start_tick, *d)).collect(), metadata
+            );
+            (added.softs, removed.softs) = bulk_add_items(
+                &mut proj.soft_repo, to_add.softs.iter().map(|s| (s.start_tick, *s)).collect(), metadata
+            );
+
+            added.bars.extend(proj.replenish_bars());
+
+            Ok(ProjectCmd::ModelChanged { added, removed, metadata })
         }));
     }
 
     fn change(&mut self, from_to: ModelChanges, metadata: ModelChangeMetadata) {
         let _ = self.mutate(Box::new(move |proj| {
-            let mut added: Models = Models::with_capacity(
-                from_to.notes.len(),
-                from_to.bars.len(),
-                from_to.tempos.len(),
-                from_to.dumpers.len(),
-                from_to.softs.len(),
-            );
-
-            let mut removed: Models = Models::with_capacity(
-                from_to.notes.len(),
-                from_to.bars.len(),
-                from_to.tempos.len(),
-                from_to.dumpers.len(),
-                from_to.softs.len(),
-            );
+            let mut added = Models::empty();
+            let mut removed = Models::empty();
 
             let mut note_change: Vec<((u32, Rc<Note>), (u32, Rc<Note>))> = Vec::with_capacity(from_to.notes.len());
+            let mut picker = NotePicker::new(&proj.note_repo);
             for (from, to) in from_to.notes.iter() {
-                note_change.push((
-                    (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
-                ));
-                added.notes.push(to.clone());
-                removed.notes.push(from.clone());
+                if picker.pick(from) {
+                    note_change.push((
+                        (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
+                    ));
+                    added.notes.push(to.clone());
+                    removed.notes.push(from.clone());
+                }
             }
             proj.note_repo.change(&note_change, metadata);
 
-            let mut bar_change: Vec<(&u32, (u32, Bar))> = Vec::with_capacity(from_to.bars.len());
-            for (from, to) in from_to.bars.iter() {
-                bar_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.bars.push(*to);
-                removed.bars.push(*from);
-            }
-            removed.bars.extend(proj.bar_repo.change(&bar_change, metadata).iter().map(|(_, b)| *b).collect::<Vec<Bar>>());
-
-            let mut tempo_change: Vec<(&u32, (u32, Tempo))> = Vec::with_capacity(from_to.tempos.len());
-            for (from, to) in from_to.tempos.iter() {
-                tempo_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.tempos.push(*to);
-                removed.tempos.push(*from);
-            }
-            removed.tempos.extend(proj.tempo_repo.change(&tempo_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<Tempo>>());
-
-            let mut dumper_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.dumpers.len());
-            for (from, to) in from_to.dumpers.iter() {
-                dumper_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.dumpers.push(*to);
-                removed.dumpers.push(*from);
-            }
-            removed.dumpers.extend(proj.dumper_repo.change(&dumper_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
-
-            let mut soft_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.softs.len());
-            for (from, to) in from_to.softs.iter() {
-                soft_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.softs.push(*to);
-                removed.softs.push(*from);
-            }
-            removed.softs.extend(proj.soft_repo.change(&soft_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            (added.bars, removed.bars) = change_items(
+                &mut proj.bar_repo,
+                from_to.bars.iter().map(|(from, to)| (from.start_tick, (to.start_tick, *to))).collect(), metadata
+            );
+            (added.tempos, removed.tempos) = change_items(
+                &mut proj.tempo_repo,
+                from_to.tempos.iter().map(|(from, to)| (from.start_tick, (to.start_tick, *to))).collect(), metadata
+            );
+            (added.dumpers, removed.dumpers) = change_items(
+                &mut proj.dumper_repo,
+                from_to.dumpers.iter().map(|(from, to)| (from.start_tick, (to.start_tick, *to))).collect(), metadata
+            );
+            (added.softs, removed.softs) = change_items(
+                &mut proj.soft_repo,
+                from_to.softs.iter().map(|(from, to)| (from.start_tick, (to.start_tick, *to))).collect(), metadata
+            );
 
             added.bars.extend(proj.replenish_bars());
             Ok(ProjectCmd::ModelChanged {
-- 
2.43.0


From 735926bb24a8d22fdc11d40241bfb9e0dbf26401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 11/19] fix: a tuplet tore chords apart and crashed on a
 divisor above 255

---
 src/tuple.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..971df75 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -14,7 +14,10 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let denominator = total_unit / min_unit;
         if denominator < 2 { return notes; }
         let total_tick = total_tick / denominator * 2;
-        let denominator = Denominator::from_value(denominator as u8).unwrap();
+        let denominator = match u8::try_from(denominator).ok().and_then(Denominator::from_value) {
+            Some(denominator) => denominator,
+            None => return notes, // Such tuplet does not exist.
+        };
         let mut u = 0;
         let mut ret = Vec::with_capacity(work.len());
 
@@ -26,9 +29,9 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += e.unit().unwrap_or(0);
                 },
             }
         }
-- 
2.43.0


From 0346ff00e919ebfc448eb98d46a098d93fa831d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 12/19] fix: out-of-range values in pasted or stored text were
 accepted or crashed the reader

---
 src/channel.rs  |  9 +++++++++
 src/duration.rs |  9 +++++++++
 src/grid.rs     | 14 ++++++++++++++
 src/key.rs      |  9 +++++++++
 src/percent.rs  | 20 ++++++++++++++++++--
 src/pitch.rs    | 10 ++++++----
 src/rhythm.rs   |  9 +++++++++
 7 files changed, 74 insertions(+), 6 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..edf4c0d 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,16 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+impl TryFrom<u8> for Channel {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        if value < 16 { Ok(Self(value)) } else { Err(format!("Invalid channel value(={}). Should be < 16.", value)) }
+    }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
diff --git a/src/duration.rs b/src/duration.rs
index 441e933..df945dc 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,18 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+impl TryFrom<u8> for Dots {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).ok_or_else(|| format!("Invalid dots(={}).", value))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
diff --git a/src/grid.rs b/src/grid.rs
index 5c9e611..255f065 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -5,11 +5,25 @@ pub enum GridError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="SerializedGrid")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct Grid {
     value: u32,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedGrid {
+    value: u32,
+}
+
+impl TryFrom<SerializedGrid> for Grid {
+    type Error = String;
+
+    fn try_from(ser: SerializedGrid) -> Result<Self, Self::Error> {
+        Self::from_u32(ser.value).map_err(|_| format!("Invalid grid(={}).", ser.value))
+    }
+}
+
 impl Grid {
     pub fn value_of(s: &str) -> Result<Self, GridError> {
         s.parse::<u32>()
diff --git a/src/key.rs b/src/key.rs
index a4dbe23..4244522 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,18 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="i8")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+impl TryFrom<i8> for Key {
+    type Error = String;
+
+    fn try_from(value: i8) -> Result<Self, Self::Error> {
+        if (-7..=7).contains(&value) { Ok(Self(value)) } else { Err(format!("Invalid key(={}).", value)) }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
diff --git a/src/percent.rs b/src/percent.rs
index 600cd9b..2c4b6ab 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,23 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(from="SerializedPercentU16")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedPercentU16 {
+    value: u16,
+}
+
+impl From<SerializedPercentU16> for PercentU16 {
+    fn from(ser: SerializedPercentU16) -> Self {
+        Self::from_value(ser.value)
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
@@ -23,8 +35,12 @@ impl PercentU16 {
     pub const HUNDRED: PercentU16 = Self::from_value(HUNDRED_VALUE);
 
     pub const fn from_value(value: u16) -> PercentU16 {
-        PercentU16 {
-            value,
+        if (MAX_VALUE as u16) < value {
+            PercentU16::MAX
+        } else {
+            PercentU16 {
+                value,
+            }
         }
     }
 
diff --git a/src/pitch.rs b/src/pitch.rs
index 20ee510..c519285 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..235a9cb 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,18 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+impl TryFrom<u8> for Numerator {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).map_err(|_| format!("Invalid numerator(={}).", value))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From cfb80696972518c89b4839cd84628f29cda04bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 13/19] fix: D.C. compared the first bar with itself instead of
 the bar that ends at D.C.

---
 src/global_repeat.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..7857c38 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -39,6 +39,7 @@ pub struct GlobalRepeatBuilder {
   pub first_bar_len: Option<u32>,
   pub top_rhythm: Rhythm,
   pub warnings: Vec<RenderRegionWarning>,
+  prev_bar_tick: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -74,6 +75,7 @@ impl GlobalRepeatBuilder {
       first_bar_len: None,
       top_rhythm: tune_rhythm,
       warnings: vec![],
+      prev_bar_tick: 0,
     }
   }
 
@@ -160,15 +162,10 @@ impl GlobalRepeatBuilder {
     }
 
     if repeats.contains(Repeat::Dc) {
-      match self.first_bar_len {
-        Some(first_bar_len) => {
-          self = self.adding_dc(tick, first_bar_len)?;
-        }
-        None => {
-          self = self.adding_dc(tick, 0)?;
-        }
-      }
+      let dc_bar_len = tick.saturating_sub(self.prev_bar_tick);
+      self = self.adding_dc(tick, dc_bar_len)?;
     }
+    self.prev_bar_tick = tick;
 
     self = if repeats.contains(Repeat::Ds) { self.adding_ds(tick)? } else { self };
     self = if repeats.contains(Repeat::Fine) { self.adding_fine(tick)? } else { self };
@@ -220,12 +217,11 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
-                  0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
-                  0
-                } else {
+                if first_bar_len < rhythm_tick_len && rhythm_tick_len - first_bar_len < len {
+                  // Auftakt, and the bar at D.C. is full. Skip the first bar.
                   first_bar_len
+                } else {
+                  0
                 }
               };
               let coda: Option<[u32; 2]> = match self.coda {
-- 
2.43.0


From e5bb39fe22865e892caf7434b28a99ca078fbe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 14/19] fix: the played time of a tick far into the tune
 overflowed although it fits

---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0


From f0e866a4428f436030e154d10d3127b008aba106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 15/19] fix: repeat marks at the top of the tune or in unusual
 order crashed rendering

---
 src/global_repeat.rs | 19 +++++++++----------
 src/repeat.rs        | 20 +++++++++++++++++---
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 7857c38..de7c48a 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -189,18 +189,17 @@ impl GlobalRepeatBuilder {
 
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
-    match coda {
+    let ranges = match coda {
         Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
+          (start_tick, coda_from), (start_tick.max(coda_to), end_tick)
         ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+        None => vec![(start_tick, end_tick)],
+    };
+    ranges.into_iter()
+      .filter(|(start, end)| start < end)
+      .map(|(start, end)| (start, end - 1))
+      .collect::<Vec<_>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..2d46f07 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,7 +148,11 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    if self.tick_range.is_empty() {
+      vec![].to_interval_set()
+    } else {
+      (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    }
   }
 }
 
@@ -183,7 +187,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
@@ -395,6 +399,16 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        // Repeat start can be omitted at the top of the tune. D.C. and D.S. cannot be placed in such a repeat.
+        if let Some(dc_ds_tick) = global_repeat.ds_dc.map(|ds_dc| ds_dc.tick()).filter(|tick| *tick != 0) {
+          if bar.repeats.contains(Repeat::End) {
+            if dc_ds_tick < bar.base_start_tick() {
+              return Err(report!(RenderRegionError::DcDsWhileRepeat { tick: dc_ds_tick }));
+            }
+          } else if !bar.repeats.contains(Repeat::Start) && bar.repeats.region_index().is_some() {
+            return Err(report!(RenderRegionError::DcDsWhileVariation { tick: dc_ds_tick }));
+          }
+        }
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
@@ -460,7 +474,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From 89f12765fb799dce6ccb07f6c1beda927f18ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 16/19] fix: an undo history of capacity zero kept one change

---
 src/undo.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/undo.rs b/src/undo.rs
index eb0b7e0..8727da9 100644
--- a/src/undo.rs
+++ b/src/undo.rs
@@ -43,10 +43,8 @@ impl UndoStore {
             self.index = 0;
         }
         
-        if self.capacity <= self.store.len() {
-            self.store.pop_back();
-        }
         self.store.push_front(undo);
+        self.store.truncate(self.capacity);
     }
     
     pub fn undo(&mut self) -> Option<&Undo> {
-- 
2.43.0


From 521dd5736e1b0cd9ce26acd0de1e473587bff945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 17/19] fix: octave errors name the octave that was asked for

---
 src/octave.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/octave.rs b/src/octave.rs
index 39046ff..ce746c2 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,12 +35,15 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
+        match Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE)) {
+            Ok(octave) => Ok(octave),
+            Err(_) => Err(OctaveError::InvalidValue(value)),
+        }
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
         if idx < 0 || Self::ALL.len() <= (idx as usize) {
-            Err(OctaveError::InvalidValue(idx))
+            Err(OctaveError::InvalidValue(idx.saturating_sub(Self::BIAS_VALUE)))
         } else {
             Ok(Self::ALL[idx as usize])
         }
-- 
2.43.0


From 3b9d4cd0149a1027b8100c34f0ab51faae17b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 18/19] fix: a pitch made by PitchBuilder could contradict
 itself or not exist

The builder let the number and the staff position of a pitch be set apart
from its name, octave and accidental, and left them those of A4 otherwise.
---
 src/pitch.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index c519285..b2cc555 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -31,18 +31,35 @@ impl fmt::Display for PitchError {
 #[derive(serde::Deserialize, serde::Serialize)]
 #[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
-#[builder(default)]
+#[builder(default, build_fn(validate = "Self::validate"))]
 pub struct Pitch {
     solfa: Solfa,
     octave: Octave,
     sharp_flat: SharpFlat,
 
     #[serde(skip)]    
+    #[builder(setter(skip), default = "self.pitch().unwrap_or(DEFAULT).value")]
     value: u8,
     #[serde(skip)]    
+    #[builder(setter(skip), default = "self.pitch().unwrap_or(DEFAULT).score_offset")]
     score_offset: i8,
 }
 
+impl PitchBuilder {
+    // Value and score offset follow from the others.
+    fn pitch(&self) -> Result<Pitch, PitchError> {
+        Pitch::value_of(
+            self.solfa.unwrap_or(DEFAULT.solfa),
+            self.octave.unwrap_or(DEFAULT.octave),
+            self.sharp_flat.unwrap_or(DEFAULT.sharp_flat)
+        )
+    }
+
+    fn validate(&self) -> Result<(), String> {
+        self.pitch().map(|_| ()).map_err(|e| e.to_string())
+    }
+}
+
 impl Default for Pitch {
     fn default() -> Self {
         DEFAULT
-- 
2.43.0


From 5c68abafbe281d51ddad35aea9e89f7463622ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 19/19] fix: dragging a note beyond the highest or lowest pitch
 crashed

It now stops there, as a drag does at the limits of ticks and tempos.
---
 src/note.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index 2c552f5..3dae721 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -139,7 +139,14 @@ impl Note {
     
     pub fn drag(&self, tick_delta: i32, score_offset_delta: i32) -> Self {
         let tick = (self.base_start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64);
-        let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap();
+        let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap_or_else(|_| {
+            // Stop at the outermost pitch.
+            let mut pitch = self.pitch;
+            while let Ok(next) = if score_offset_delta < 0 { pitch.down() } else { pitch.up() } {
+                pitch = next;
+            }
+            pitch
+        });
         Self {
             base_start_tick: tick as u32,
             pitch: pitch,
-- 
2.43.0

