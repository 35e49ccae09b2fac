From 6f154dc66ff38d75a6be5b9b5d6f5fa6633c5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 01/51] fix: TapLinear delay buffer must hold a full SIMD
 vector beyond the maximum delay

---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From c39855588de51d5186dcfbbeefc2fce5962c4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 02/51] fix: Granular output must not depend on block size

---
 src/granular.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/granular.rs b/src/granular.rs
index c16492c..2364295 100644
--- a/src/granular.rs
+++ b/src/granular.rs
@@ -168,10 +168,19 @@ impl<
 
     /// Check all voices and instantiate grains that start before the given time.
     fn instantiate_voices(&mut self, before_time: f64) {
-        for voice in 0..self.voices.len() {
-            while self.voices[voice].next_time < before_time {
-                self.instantiate(voice);
+        // Instantiate in time order, so that the order in which grains draw
+        // random numbers does not depend on the block size.
+        loop {
+            let mut voice = 0;
+            for i in 1..self.voices.len() {
+                if self.voices[i].next_time < self.voices[voice].next_time {
+                    voice = i;
+                }
+            }
+            if self.voices.is_empty() || self.voices[voice].next_time >= before_time {
+                break;
             }
+            self.instantiate(voice);
         }
     }
 }
-- 
2.43.0


From d1bf4cf2c0c5edda11a46d987ab2a1a869212888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 03/51] fix: adsr_live clones shared state, reset did not
 restart it and it sounded before any trigger

---
 src/adsr.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..cc1c08f 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -24,29 +24,29 @@ pub fn adsr_live(
     sustain: f32,
     release: f32,
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
-    let neg1 = -1.0;
-    let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    // The state is owned by the closure, so that clones of the envelope are independent.
+    let mut held = false;
+    let mut attack_start = 0.0;
+    let mut release_start = -release;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time == 0.0 {
+            // We are starting from the beginning, possibly after a reset.
+            held = false;
+            attack_start = 0.0;
+            release_start = -release;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if !held && control > 0.0 {
+            attack_start = time;
+            held = true;
+        } else if held && control <= 0.0 {
+            release_start = time;
+            held = false;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if held {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From a48a591fe1ef2146bcb728da52125f815ce90795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 04/51] fix: sequencer fades misaligned when an event starts
 inside a block

---
 src/sequencer.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..e0b4985 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -131,7 +131,7 @@ fn fade_in(
         let fade_end_i = if fade_end_time >= end_time {
             end_index
         } else {
-            round((fade_end_time - time) / sample_duration) as usize
+            (round((fade_end_time - time) / sample_duration) as usize).clamp(start_index, end_index)
         };
         let fade_phase = delerp(
             fade_start_time,
@@ -143,7 +143,8 @@ fn fade_in(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()
+                    {
                         *x *= sine_ease(fade);
                         fade += fade_d;
                     }
@@ -152,7 +153,8 @@ fn fade_in(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()
+                    {
                         *x *= smooth5(fade);
                         fade += fade_d;
                     }
@@ -167,7 +169,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -177,9 +179,10 @@ fn fade_out(
     let fade_start_time = fade_end_time - fade_duration;
     if fade_duration > 0.0 && fade_start_time < end_time {
         let fade_i = if fade_start_time <= time {
-            0
+            start_index
         } else {
-            round((fade_start_time - time) / sample_duration) as usize
+            (round((fade_start_time - time) / sample_duration) as usize)
+                .clamp(start_index, end_index)
         };
         let fade_phase = delerp(
             fade_start_time,
@@ -191,7 +194,10 @@ fn fade_out(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)
+                        [fade_i - start_index..end_index - start_index]
+                        .iter_mut()
+                    {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -200,7 +206,10 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)
+                        [fade_i - start_index..end_index - start_index]
+                        .iter_mut()
+                    {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From 237bac34fb4d5a9aeeac0fa29b22429b1f6c0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:44 +0000
Subject: [PATCH 05/51] fix: Crush rounds half-way values the same way in tick
 and process

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..6ff27fd 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -128,7 +128,7 @@ pub struct Crush(pub f32);
 impl Shape for Crush {
     #[inline]
     fn shape(&mut self, input: f32) -> f32 {
-        (input * self.0).round() / self.0
+        libm::rintf(input * self.0) / self.0
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-- 
2.43.0


From 71ab1a8ecc3e1f9f140636316247e08a9ebfc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 06/51] fix: limiter let the first peak through unlimited and
 kept its gain over a reset

---
 src/dynamics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..2b17cce 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -190,6 +190,7 @@ where
         if length != self.reducer.length {
             self.reducer = Self::new_buffer(sample_rate, self.lookahead);
         }
+        self.follower.reset();
         self.follower.set_sample_rate(sample_rate);
         self.reducer.clear();
         self.buffer.clear();
@@ -204,7 +205,9 @@ where
             self.buffer.push(input.clone());
             if self.buffer.len() == self.reducer.length() {
                 // When the buffer is full, start following from its total peak.
-                self.follower.set_value(self.reducer.total());
+                // The follower jumps to the first value it receives after a reset.
+                self.follower
+                    .filter_mono(max(1.0, self.reducer.total() * 1.10));
             }
             self.advance();
             Frame::default()
-- 
2.43.0


From da17e86d595e565c018b3f172753a0d00c1091bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 07/51] fix: Mls reset did not return to the initial state

---
 src/noise.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..06543ac 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,18 +100,24 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// Initial state.
+    start: MlsState,
     seed: Option<u64>,
-    hash: u64,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
             mls,
+            start: mls,
             seed: None,
-            hash: 0,
         }
     }
+
+    /// State that corresponds to a 64-bit seed.
+    fn seeded(&self, seed: u64) -> MlsState {
+        MlsState::new_with_seed(self.mls.n, (seed ^ (seed >> 32)) as u32)
+    }
 }
 
 impl AudioNode for Mls {
@@ -120,8 +126,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed {
+            Some(seed) => self.seeded(seed),
+            None => self.start,
+        };
     }
 
     #[inline]
@@ -138,7 +146,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.start = self.seeded(hash);
         self.reset();
     }
 
-- 
2.43.0


From 52a5d530f240d74ddae502c568992cd44e886728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 08/51] fix: new Adaptive shaper started from a different state
 than a reset one

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6ff27fd..43ce8ba 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From 62daafea85b4f54ccb72ca21df6ea8f03a73bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 09/51] fix: new WaveSynth started from a different phase than
 a reset one

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..fdff6bf 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From 2b453193d3ccac53381d3e8853dbd2174bb20586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 10/51] fix: Reverb reset and sample rate change skipped the
 input allpasses

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From 9e21a83be50735901f816ad1a824e62b72c897d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:31 +0000
Subject: [PATCH 11/51] fix: commits and settings superseded before the backend
 saw them lost their edits

---
 src/net.rs     | 13 -------------
 src/realnet.rs | 43 ++++++++++++++-----------------------------
 2 files changed, 14 insertions(+), 42 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..877f110 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1288,19 +1288,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..390693f 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -59,27 +59,26 @@ impl NetBackend {
         }
     }
 
-    /// Handle changes made to the backend.
+    /// Handle changes made to the backend. Messages are handled in the order they were sent.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
                 Ok(message) => {
                     match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
+                        NetMessage::Net(mut net) => {
+                            // Migrate existing nodes to the new network.
+                            self.net.migrate(&mut net);
+                            core::mem::swap(&mut net, &mut self.net);
+                            self.net.apply_edits(&self.sender);
+                            // Send the previous network back for deallocation.
+                            if self
+                                .sender
+                                .as_ref()
+                                .unwrap()
+                                .try_send(NetReturn::Net(net))
+                                .is_ok()
+                            {}
                         }
                         NetMessage::Setting(setting) => {
                             self.net.set(setting);
@@ -90,20 +89,6 @@ impl NetBackend {
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From 92f1a343f38eec3344c6b993841f1bc6913ca673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 12/51] fix: frontend must adopt crossfaded units, otherwise a
 later reset and commit reverts them

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 877f110..b9b9110 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1133,6 +1133,10 @@ impl Net {
         // Filter the edit queue while updating unit indices.
         for edit in self.edit_queue.iter_mut() {
             if let Some(&index) = self.node_index.get(&edit.id) {
+                // The frontend adopts the new unit. The original unit is sent to the backend below.
+                if let Some(unit) = &edit.unit {
+                    net.vertex[index].unit = unit.clone();
+                }
                 net.edit_queue.push(NodeEdit {
                     unit: edit.unit.take(),
                     id: edit.id,
-- 
2.43.0


From b7c425f75dccea4818c8e70095ab57bd42a5d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 13/51] fix: network reset and sample rate change must reach
 units that are being faded in

---
 src/net.rs    | 13 +++++++++++++
 src/vertex.rs |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index b9b9110..b8c9dbf 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1309,6 +1309,12 @@ impl AudioUnit for Net {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
                 vertex.unit.set_sample_rate(sample_rate as f64);
+                if let Some(next) = vertex.next.unit.as_deref_mut() {
+                    next.set_sample_rate(sample_rate as f64);
+                }
+                if let Some(latest) = vertex.latest.unit.as_deref_mut() {
+                    latest.set_sample_rate(sample_rate as f64);
+                }
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
@@ -1325,6 +1331,13 @@ impl AudioUnit for Net {
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
             vertex.unit.reset();
+            if let Some(next) = vertex.next.unit.as_deref_mut() {
+                next.reset();
+            }
+            if let Some(latest) = vertex.latest.unit.as_deref_mut() {
+                latest.reset();
+            }
+            vertex.fade_phase = 0.0;
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..cfc2ce3 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -93,6 +93,12 @@ impl Vertex {
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
+        if let Some(next) = self.next.unit.as_deref_mut() {
+            next.allocate();
+        }
+        if let Some(latest) = self.latest.unit.as_deref_mut() {
+            latest.allocate();
+        }
     }
 
     /// Calculate source vertex and source port.
-- 
2.43.0


From 6d2f027829d63801e36f7badb9009008bab6f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 14/51] fix: replacing a network node must cancel its pending
 crossfades

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index b8c9dbf..2a411da 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -466,6 +466,10 @@ impl Net {
         unit.set_sample_rate(self.sample_rate as f64);
         core::mem::swap(&mut self.vertex[node_index].unit, &mut unit);
         self.vertex[node_index].changed = self.revision;
+        // Cancel earlier crossfades that have not finished yet.
+        self.edit_queue.retain(|edit| edit.id != node);
+        self.vertex[node_index].next = NodeEdit::default();
+        self.vertex[node_index].latest = NodeEdit::default();
         unit
     }
 
-- 
2.43.0


From 3a44dac7d3165c0d76b4191b9cf7f1d76e803567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:04 +0000
Subject: [PATCH 15/51] fix: combined networks and queued crossfades must
 follow the sample rate of the network

---
 src/net.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 2a411da..93f8a2b 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1325,6 +1325,12 @@ impl AudioUnit for Net {
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                    unit.allocate();
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
@@ -1467,6 +1473,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net2.set_sample_rate(net1.sample_rate as f64);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
         let outputs = net1.outputs() + net2.outputs();
@@ -1523,6 +1530,7 @@ impl Net {
     /// Given nets `net1` and `net2`, create and return net `net1 | net2`.
     pub fn stack(mut net1: Net, mut net2: Net) -> Net {
         net2.disambiguate_ids(&net1);
+        net2.set_sample_rate(net1.sample_rate as f64);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
         let input_offset = net1.inputs();
@@ -1595,6 +1603,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net2.set_sample_rate(net1.sample_rate as f64);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
         let input_offset = net1.inputs();
@@ -1702,6 +1711,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net2.set_sample_rate(net1.sample_rate as f64);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
         let offset = net1.vertex.len();
@@ -1777,6 +1787,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net2.set_sample_rate(net1.sample_rate as f64);
         let offset = net1.vertex.len();
         net1.vertex.append(&mut net2.vertex);
         // Adjust local ports.
-- 
2.43.0


From ac37e95d35301defff790b8eec9ffaca9549deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:33 +0000
Subject: [PATCH 16/51] fix: type alias U90 named 80 channels

---
 src/hacker.rs   | 2 +-
 src/hacker32.rs | 2 +-
 src/prelude.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hacker.rs b/src/hacker.rs
index eb30894..bd5bd75 100644
--- a/src/hacker.rs
+++ b/src/hacker.rs
@@ -135,7 +135,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
diff --git a/src/hacker32.rs b/src/hacker32.rs
index 5e2dd2b..bdf24bb 100644
--- a/src/hacker32.rs
+++ b/src/hacker32.rs
@@ -135,7 +135,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
diff --git a/src/prelude.rs b/src/prelude.rs
index c76eb49..45e4bee 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -134,7 +134,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
-- 
2.43.0


From 7e2aed75cd9e6f45c62f72971c73fa9234e79f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:16 +0000
Subject: [PATCH 17/51] fix: Net::check examined stale source vertex shortcuts
 after an edit

---
 src/net.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index 93f8a2b..b721ef2 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1029,7 +1029,11 @@ impl Net {
                     _ => (),
                 }
             }
-            if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
+            // The source vertex shortcut is up to date only if the network has been ordered.
+            if let Some((source_node, source_port)) = self.vertex[index]
+                .source_vertex
+                .filter(|_| self.is_ordered())
+            {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
                 assert!(
-- 
2.43.0


From ff91f872d92af8bcad4852f161fe263348a5d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:17 +0000
Subject: [PATCH 18/51] fix: removing a node of a cycle with remove_link must
 not create a self connection

---
 src/net.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index b721ef2..b9c2567 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -400,7 +400,11 @@ impl Net {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
                         self.vertex[vertex].source[channel].source = if link {
-                            self.vertex[node_index].source[port].source
+                            match self.vertex[node_index].source[port].source {
+                                // Self connections are prohibited.
+                                Port::Local(source, _) if source == vertex => Port::Zero,
+                                source => source,
+                            }
                         } else {
                             Port::Zero
                         };
-- 
2.43.0


From dce4ed87ce7e738cc44bd305406f8ab6a38aca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:29 +0000
Subject: [PATCH 19/51] fix: DummyUnit left most of the block unwritten, so
 fade_in mixed stale samples

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..b33ae3c 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_mut(channel)[0..simd_items(size)].fill(F32x::ZERO);
         }
     }
 
-- 
2.43.0


From 35fbaf3c1984b32c9cc159d3c950c69edf4fe85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:52 +0000
Subject: [PATCH 20/51] fix: sequencer fades evaluated fade curves outside
 their domain next to fade boundaries

---
 src/sequencer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index e0b4985..5c176e5 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -145,7 +145,7 @@ fn fade_in(
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()
                     {
-                        *x *= sine_ease(fade);
+                        *x *= sine_ease(clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -155,7 +155,7 @@ fn fade_in(
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()
                     {
-                        *x *= smooth5(fade);
+                        *x *= smooth5(clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -198,7 +198,7 @@ fn fade_out(
                         [fade_i - start_index..end_index - start_index]
                         .iter_mut()
                     {
-                        *x *= sine_ease(1.0 - fade);
+                        *x *= sine_ease(1.0 - clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -210,7 +210,7 @@ fn fade_out(
                         [fade_i - start_index..end_index - start_index]
                         .iter_mut()
                     {
-                        *x *= smooth5(1.0 - fade);
+                        *x *= smooth5(1.0 - clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -660,11 +660,12 @@ impl AudioUnit for Sequencer {
             } else {
                 self.active[i].unit.tick(input, &mut self.tick_buffer);
                 if self.active[i].fade_in > 0.0 {
-                    let fade_in = delerp(
+                    // The event may start up to half a sample after the current time.
+                    let fade_in = clamp01(delerp(
                         self.active[i].start_time,
                         self.active[i].start_time + self.active[i].fade_in,
                         self.time,
-                    ) as f32;
+                    ) as f32);
                     if fade_in < 1.0 {
                         match self.active[i].fade_ease {
                             Fade::Power => {
-- 
2.43.0


From cabe67dc5c0295fe54306a0344db15cc16a20a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:54 +0000
Subject: [PATCH 21/51] fix: sequencer backend applied a reset after messages
 that were sent later, losing events

---
 src/realseq.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..030d126 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -63,7 +63,8 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    // Messages that were sent after the reset must not be handled before it.
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -82,6 +83,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the sequencer, sending discarded events back for deallocation.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -101,18 +118,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 1fecd03f46432cf56ea56c0ed1b526f908087abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 22/51] fix: Morph response was wrong when its input had passed
 through another filter

---
 src/svf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..4c84bca 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -1112,11 +1112,15 @@ impl<F: Real> AudioNode for Morph<F> {
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = self.filter.route(input, frequency);
+        let morph = self.morph.to_f64();
         output.set(
             0,
-            output.at(0).filter(0.0, |r| {
-                (r + Complex64::new(self.morph.to_f64(), 0.0)) * 0.5
-            }),
+            output.at(0).combine_linear(
+                input.at(0),
+                0.0,
+                |x, y| (x + y * morph) * 0.5,
+                |x, y| (x + y * morph) * 0.5,
+            ),
         );
         output
     }
-- 
2.43.0


From 513fb439b582c3cecfd6ba4e0ee60259ee8a8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 23/51] fix: signal analysis of stacks and sums of many nodes
 gave the first node all inputs

---
 src/audionode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..d58c8df 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,7 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2202,7 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From 1b3fb0b1d1fa7f84bc207c8d50ce360158e3c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 24/51] fix: latency of a multichannel resynthesizer was
 counted again for each input

---
 src/signal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..f82d7ec 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -181,11 +181,12 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                // The latency is incurred once no matter how many inputs there are.
+                output.fill(combo.distort(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From b4f7ab6cebd377e9047e7ce59856b1abb43e588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 25/51] fix: generators were not seen by latency analysis, so
 render_latency never removed pre-delay

---
 src/signal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index f82d7ec..ad8f7c5 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,6 +176,10 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
+        if let Routing::Generator(latency) = self {
+            output.fill(Signal::Latency(*latency));
+            return output;
+        }
         if input.is_empty() {
             return output;
         }
@@ -216,11 +220,7 @@ impl Routing {
                     output.set(i, input.at(input.len() - 1 - i));
                 }
             }
-            Routing::Generator(latency) => {
-                for i in 0..outputs {
-                    output.set(i, Signal::Latency(*latency));
-                }
-            }
+            Routing::Generator(_) => (),
         }
         output
     }
-- 
2.43.0


From 0c67b9ca69df19e2845e384a5daafda29ca094e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 26/51] fix: render_latency and filter_latency measured latency
 at the wrong sample rate

---
 src/wave.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..2e04685 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,8 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(sample_rate);
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +574,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From 95ea538466b7ecf54536f15714faa4eb98fac883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 27/51] fix: latency of an oversampled unit was reported at the
 inner sample rate

---
 src/oversample.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/oversample.rs b/src/oversample.rs
index 3cf7f3a..38307f4 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -280,7 +280,22 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        self.x.route(input, frequency)
+        // The enclosed node counts latency at twice the sample rate.
+        let scale = |frame: &mut SignalFrame, factor: f64| {
+            for i in 0..frame.len() {
+                let signal = match frame.at(i) {
+                    Signal::Latency(l) => Signal::Latency(l * factor),
+                    Signal::Response(r, l) => Signal::Response(r, l * factor),
+                    x => x,
+                };
+                frame.set(i, signal);
+            }
+        };
+        let mut inner_input = input.clone();
+        scale(&mut inner_input, 2.0);
+        let mut output = self.x.route(&inner_input, frequency);
+        scale(&mut output, 0.5);
+        output
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
-- 
2.43.0


From 83b417dc3ffe7a153dd55a52622763c3b50348ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:03 +0000
Subject: [PATCH 28/51] fix: settings sent to a listener reach the node that it
 contains

---
 src/setting.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..4448771 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -275,7 +275,7 @@ impl<X: AudioNode> SettingListener<X> {
     }
     fn receive_settings(&mut self) {
         while let Result::Ok(setting) = self.rv.try_recv() {
-            self.set(setting);
+            self.x.set(setting);
         }
     }
 }
@@ -306,6 +306,10 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -314,4 +318,8 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.receive_settings();
         self.x.route(input, frequency)
     }
+
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
 }
-- 
2.43.0


From b9f7a7a8b1471bc74d7b29319a9c01143b6698fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:16 +0000
Subject: [PATCH 29/51] fix: resonator_hz responds to center and Q settings

---
 src/biquad.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d3174ca 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -366,6 +366,16 @@ impl<F: Real, N: Size<f32>> AudioNode for Resonator<F, N> {
         self.biquad.tick(&[input[0]].into())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.parameter() {
+            Parameter::Center(center) => self.set_center_q(F::from_f32(*center), self.q),
+            Parameter::CenterQ(center, q) => {
+                self.set_center_q(F::from_f32(*center), F::from_f32(*q))
+            }
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = SignalFrame::new(self.outputs());
         output.set(
-- 
2.43.0


From 9d43e315fc65c06248c2e6748f78ba09105d2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:17 +0000
Subject: [PATCH 30/51] fix: settings with an index out of range name no node
 and are ignored instead of panicking

---
 src/audionode.rs   | 20 +++++++++++++++-----
 src/biquad_bank.rs |  3 +++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index d58c8df..feaa465 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -1911,7 +1911,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
-            self.x[index].set(setting.peel());
+            if let Some(x) = self.x.get_mut(index) {
+                x.set(setting.peel());
+            }
         }
     }
 
@@ -2047,7 +2049,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
-            self.x[index].set(setting.peel());
+            if let Some(x) = self.x.get_mut(index) {
+                x.set(setting.peel());
+            }
         }
     }
 
@@ -2189,7 +2193,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
-            self.x[index].set(setting.peel());
+            if let Some(x) = self.x.get_mut(index) {
+                x.set(setting.peel());
+            }
         }
     }
 
@@ -2307,7 +2313,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
-            self.x[index].set(setting.peel());
+            if let Some(x) = self.x.get_mut(index) {
+                x.set(setting.peel());
+            }
         }
     }
 
@@ -2425,7 +2433,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
-            self.x[index].set(setting.peel());
+            if let Some(x) = self.x.get_mut(index) {
+                x.set(setting.peel());
+            }
         }
     }
 
diff --git a/src/biquad_bank.rs b/src/biquad_bank.rs
index 7989fbb..5f7f3c2 100644
--- a/src/biquad_bank.rs
+++ b/src/biquad_bank.rs
@@ -85,6 +85,9 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Address::Index(index) = setting.direction() {
+            if index >= self.outputs() {
+                return;
+            }
             if let Parameter::Biquad(a1, a2, b0, b1, b2) = setting.parameter() {
                 self.coefs.a1.set(index, *a1);
                 self.coefs.a2.set(index, *a2);
-- 
2.43.0


From 76b43ba3ac343d362a0a16373663056a3766b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:53 +0000
Subject: [PATCH 31/51] fix: Wave::retain accepts spans that lie beyond the end
 of the wave

---
 src/wave.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wave.rs b/src/wave.rs
index 2e04685..6766379 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -305,8 +305,9 @@ impl Wave {
     /// Only the part of the span overlapping the wave is considered.
     /// That is, the offset may be negative and the end of the span may lie beyond the end of the wave.
     pub fn retain(&mut self, start: isize, length: usize) {
-        let i0 = max(start, 0) as usize;
-        let i1 = min(self.length(), max(0, start + length as isize) as usize);
+        let end = start.saturating_add(min(length, isize::MAX as usize) as isize);
+        let i0 = min(self.length(), max(start, 0) as usize);
+        let i1 = max(i0, min(self.length(), max(end, 0) as usize));
         if i0 > 0 {
             for channel in 0..self.channels() {
                 for i in i0..i1 {
-- 
2.43.0


From 0829ff8e3851ffb818016c13cd89eac2fe3a3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:06 +0000
Subject: [PATCH 32/51] fix: saving a wave reports errors of the final buffered
 write

---
 src/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..030abe8 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,8 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        // Errors would go unnoticed if the buffer was flushed when dropped.
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +95,8 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        // Errors would go unnoticed if the buffer was flushed when dropped.
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From 8c82396262703c31ea2df28708fa6bf55e649eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:42 +0000
Subject: [PATCH 33/51] fix: limiter keeps its ceiling when attack or release
 take only a few samples

---
 src/dynamics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 2b17cce..feeaaff 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -218,7 +218,10 @@ where
             self.follower
                 .filter_mono(max(1.0, self.reducer.total() * 1.10));
             self.advance();
-            let limit = self.follower.value();
+            // The follower may not reach the peak in time when the attack or
+            // release time is only a few samples.
+            let peak = output.iter().fold(0.0, |amp, &x| max(amp, abs(x)));
+            let limit = max(self.follower.value(), peak);
             output * Frame::splat(1.0 / limit)
         }
     }
-- 
2.43.0


From d659a015204bd06237dedffae381a786bd1af84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 34/51] fix: allocate the whole limiter buffer ahead of
 rendering

---
 src/dynamics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index feeaaff..4951ea6 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -238,7 +238,7 @@ where
     fn allocate(&mut self) {
         if self.buffer.capacity() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
-- 
2.43.0


From 8dfb31bcece0c41e03f50ce5c1b77a01cb252aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 35/51] fix: allocate the feedback path of Feedback2

---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From c951ae6270127ce73809beb1e2cc7606369b6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 36/51] fix: allocate the loop filters of Reverb

---
 src/reverb.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index 314bce9..df895d2 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -282,4 +282,11 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, 2)
     }
+
+    fn allocate(&mut self) {
+        for block in self.block.iter_mut() {
+            block.filter0.allocate();
+            block.filter1.allocate();
+        }
+    }
 }
-- 
2.43.0


From d18f00e8decea05fa918f7333f71ede73baf7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:29 +0000
Subject: [PATCH 37/51] fix: allocate the events of a sequencer ahead of
 rendering

---
 src/sequencer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 5c176e5..8679a4b 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -819,6 +819,15 @@ impl AudioUnit for Sequencer {
         self.ready.reserve(DEFAULT_CAPACITY);
         self.past.reserve(DEFAULT_CAPACITY);
         self.edit_map.reserve(DEFAULT_CAPACITY);
+        // The heap does not give mutable access to its events.
+        let mut ready = core::mem::take(&mut self.ready).into_vec();
+        for event in ready.iter_mut() {
+            event.unit.allocate();
+        }
+        self.ready = BinaryHeap::from(ready);
+        for event in self.active.iter_mut().chain(self.past.iter_mut()) {
+            event.unit.allocate();
+        }
     }
 }
 
-- 
2.43.0


From 07e4317387b7b96ff9f820e3bdf225e9efb301f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:10 +0000
Subject: [PATCH 38/51] fix: softsign shape with a negative hardness in block
 processing

---
 src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 43ce8ba..574934f 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -117,7 +117,8 @@ impl Shape for Softsign {
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-        input * self.0 / (F32x::ONE + input.abs() * self.0)
+        let x = input * self.0;
+        x / (F32x::ONE + x.abs())
     }
 }
 
-- 
2.43.0


From d78a0454f9f5e469c72404367df397594180a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:19 +0000
Subject: [PATCH 39/51] fix: exact floor and ceil of SIMD elements

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5af664..98730ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,7 +27,7 @@ use core::marker::{Send, Sync};
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use core::ops::{BitAnd, BitOr, BitXor, Not, Shl, Shr};
 
-use wide::{f32x8, f64x4, i32x8, u32x8};
+use wide::{f32x8, f64x4, i32x8, u32x8, CmpGt, CmpLt};
 
 /// Type-level integer. These are notated as `U0`, `U1`...
 pub trait Size<T>: ArrayLength + Sync + Send + Clone {}
@@ -324,11 +324,13 @@ impl Num for F32x {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let rounded = self.round();
+        rounded - (rounded.cmp_gt(self) & F32x::ONE)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let rounded = self.round();
+        rounded + (rounded.cmp_lt(self) & F32x::ONE)
     }
     #[inline(always)]
     fn round(self) -> Self {
@@ -381,11 +383,13 @@ impl Num for f64x4 {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let rounded = self.round();
+        rounded - (rounded.cmp_gt(self) & wide::f64x4::ONE)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let rounded = self.round();
+        rounded + (rounded.cmp_lt(self) & wide::f64x4::ONE)
     }
     #[inline(always)]
     fn round(self) -> Self {
-- 
2.43.0


From 3b2f0ff4689e1d33356768adcafb2092bad38145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:19 +0000
Subject: [PATCH 40/51] fix: monotonic spline follows Steffen's method on
 falling segments

---
 src/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d183ada..27108ed 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -372,8 +372,9 @@ pub fn spline_mono<T: Num>(y0: T, y1: T, y2: T, y3: T, x: T) -> T {
     let d0 = y1 - y0;
     let d1 = y2 - y1;
     let d2 = y3 - y2;
-    let d1d = (signum(d0) + signum(d1)) * min(d0 + d1, min(abs(d0), abs(d1)));
-    let d2d = (signum(d1) + signum(d2)) * min(d1 + d2, min(abs(d1), abs(d2)));
+    let q = T::from_f32(0.25);
+    let d1d = (signum(d0) + signum(d1)) * min(q * abs(d0 + d1), min(abs(d0), abs(d1)));
+    let d2d = (signum(d1) + signum(d2)) * min(q * abs(d1 + d2), min(abs(d1), abs(d2)));
     x * x * x * (T::new(2) * y1 - T::new(2) * y2 + d1d + d2d)
         + x * x * (T::new(-3) * y1 + T::new(3) * y2 - T::new(2) * d1d - d2d)
         + x * d1d
-- 
2.43.0


From ba7b3dbe3803fcf301c7213ea5cee1e026d2aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:09 +0000
Subject: [PATCH 41/51] fix: wavetable from a single cycle wave keeps the shape
 of the wave

---
 src/wavetable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index fdff6bf..63be84b 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -134,7 +134,8 @@ impl Wavetable {
         let spectrum = super::fft::real_fft(&mut data);
         let phase = |i: u32| {
             if (i as usize) < spectrum.len() {
-                spectrum[i as usize].arg() as f64 / f64::TAU
+                // The spectrum is in terms of cosines while partials are sines.
+                spectrum[i as usize].arg() as f64 / f64::TAU + 0.25
             } else {
                 0.0
             }
-- 
2.43.0


From 336239f7d5ac289f3bd14bf1de7a5258bf3cfa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:18 +0000
Subject: [PATCH 42/51] fix: envelope time does not drift or stop in single
 precision

---
 src/envelope.rs | 92 ++++++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 5d2366a..0b517a6 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -24,11 +24,11 @@ where
     /// Control function.
     envelope: E,
     /// Time at next sample.
-    t: F,
+    t: f64,
     /// Start of current segment.
-    t_0: F,
+    t_0: f64,
     /// End of current segment.
-    t_1: F,
+    t_1: f64,
     /// Current time dependent hash.
     t_hash: u64,
     /// Value at start of current segment.
@@ -40,9 +40,9 @@ where
     /// Value delta per sample.
     value_d: Frame<f32, R::Size>,
     /// Average interval between segments in seconds.
-    interval: F,
+    interval: f64,
     /// Sample duration in seconds.
-    sample_duration: F,
+    sample_duration: f64,
     /// Deterministic pseudorandom phase.
     hash: u64,
 }
@@ -59,16 +59,16 @@ where
         assert!(interval > F::zero());
         let mut node = Self {
             envelope,
-            t: F::zero(),
-            t_0: F::zero(),
-            t_1: F::zero(),
+            t: 0.0,
+            t_0: 0.0,
+            t_1: 0.0,
             t_hash: 0,
             value_0: Frame::default(),
             value_1: Frame::default(),
             value: Frame::default(),
             value_d: Frame::default(),
-            interval,
-            sample_duration: F::zero(),
+            interval: interval.to_f64(),
+            sample_duration: 0.0,
             hash: 0,
         };
         node.set_sample_rate(DEFAULT_SR);
@@ -81,13 +81,9 @@ where
         self.t_0 = self.t_1;
         self.value_0 = self.value_1.clone();
         // Jitter the next sample point.
-        let next_interval = lerp(
-            F::from_f32(0.75),
-            F::from_f32(1.25),
-            convert(rnd1(self.t_hash)),
-        ) * self.interval;
+        let next_interval = lerp(0.75, 1.25, rnd1(self.t_hash)) * self.interval;
         self.t_1 = self.t_0 + next_interval;
-        let value_1: Frame<_, _> = (self.envelope)(self.t_1).frame();
+        let value_1: Frame<_, _> = (self.envelope)(convert(self.t_1)).frame();
         self.value_1 = Frame::generate(|i| convert(value_1[i]));
         self.t_hash = self
             .t_hash
@@ -112,17 +108,17 @@ where
     type Outputs = R::Size;
 
     fn reset(&mut self) {
-        self.t = F::zero();
-        self.t_0 = F::zero();
-        self.t_1 = F::zero();
+        self.t = 0.0;
+        self.t_0 = 0.0;
+        self.t_1 = 0.0;
         self.t_hash = self.hash;
-        let value_0: Frame<_, _> = (self.envelope)(self.t_0).frame();
+        let value_0: Frame<_, _> = (self.envelope)(convert(self.t_0)).frame();
         self.value_0 = Frame::generate(|i| convert(value_0[i]));
         self.value_1 = self.value_0.clone();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.sample_duration = convert(1.0 / sample_rate);
+        self.sample_duration = 1.0 / sample_rate;
     }
 
     #[inline]
@@ -142,8 +138,7 @@ where
         }
         let mut i = 0;
         while i < size {
-            let segment_samples_left =
-                ((self.t_1 - self.t) / self.sample_duration).ceil().to_i64() as usize;
+            let segment_samples_left = ceil((self.t_1 - self.t) / self.sample_duration) as usize;
             let loop_samples = Num::min(size - i, segment_samples_left);
             for channel in 0..self.outputs() {
                 let mut value = self.value[channel];
@@ -155,7 +150,7 @@ where
                 self.value[channel] = value;
             }
             i += loop_samples;
-            self.t += F::new(loop_samples as i64) * self.sample_duration;
+            self.t += loop_samples as f64 * self.sample_duration;
             if loop_samples == segment_samples_left {
                 self.next_segment();
             }
@@ -164,7 +159,7 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Parameter::Interval(time) = setting.parameter() {
-            self.interval = F::from_f32(*time);
+            self.interval = *time as f64;
         }
     }
 
@@ -193,11 +188,11 @@ where
     /// Control function.
     envelope: E,
     /// Time at next sample.
-    t: F,
+    t: f64,
     /// Start of current segment.
-    t_0: F,
+    t_0: f64,
     /// End of current segment.
-    t_1: F,
+    t_1: f64,
     /// Current time dependent hash.
     t_hash: u64,
     /// Value at start of current segment.
@@ -209,9 +204,9 @@ where
     /// Value delta per sample.
     value_d: Frame<f32, R::Size>,
     /// Average interval between segments in seconds.
-    interval: F,
+    interval: f64,
     /// Sample duration in seconds.
-    sample_duration: F,
+    sample_duration: f64,
     /// Deterministic pseudorandom phase.
     hash: u64,
     _marker: PhantomData<I>,
@@ -230,16 +225,16 @@ where
         assert!(interval > F::zero());
         let mut node = Self {
             envelope,
-            t: F::zero(),
-            t_0: F::zero(),
-            t_1: F::zero(),
+            t: 0.0,
+            t_0: 0.0,
+            t_1: 0.0,
             t_hash: 0,
             value_0: Frame::default(),
             value_1: Frame::default(),
             value: Frame::default(),
             value_d: Frame::default(),
-            interval,
-            sample_duration: F::zero(),
+            interval: interval.to_f64(),
+            sample_duration: 0.0,
             hash: 0,
             _marker: PhantomData,
         };
@@ -250,22 +245,18 @@ where
 
     /// Move to the next segment.
     fn next_segment(&mut self, input: &Frame<f32, I>) {
-        if self.t_0 == F::zero() && self.t_1 == F::zero() {
+        if self.t_0 == 0.0 && self.t_1 == 0.0 {
             // Get the initial value.
-            let value_0: Frame<_, _> = (self.envelope)(self.t_0, input).frame();
+            let value_0: Frame<_, _> = (self.envelope)(convert(self.t_0), input).frame();
             self.value_0 = Frame::generate(|i| convert(value_0[i]));
         } else {
             self.t_0 = self.t_1;
             self.value_0 = self.value_1.clone();
         }
         // Jitter the next sample point.
-        let next_interval = lerp(
-            F::from_f32(0.75),
-            F::from_f32(1.25),
-            convert(rnd1(self.t_hash)),
-        ) * self.interval;
+        let next_interval = lerp(0.75, 1.25, rnd1(self.t_hash)) * self.interval;
         self.t_1 = self.t_0 + next_interval;
-        let value_1: Frame<_, _> = (self.envelope)(self.t_1, input).frame();
+        let value_1: Frame<_, _> = (self.envelope)(convert(self.t_1), input).frame();
         self.value_1 = Frame::generate(|i| convert(value_1[i]));
         self.t_hash = self
             .t_hash
@@ -291,14 +282,14 @@ where
     type Outputs = R::Size;
 
     fn reset(&mut self) {
-        self.t = F::zero();
-        self.t_0 = F::zero();
-        self.t_1 = F::zero();
+        self.t = 0.0;
+        self.t_0 = 0.0;
+        self.t_1 = 0.0;
         self.t_hash = self.hash;
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.sample_duration = convert(1.0 / sample_rate);
+        self.sample_duration = 1.0 / sample_rate;
     }
 
     #[inline]
@@ -321,8 +312,7 @@ where
         }
         let mut i = 0;
         while i < size {
-            let segment_samples_left =
-                ceil((self.t_1 - self.t) / self.sample_duration).to_i64() as usize;
+            let segment_samples_left = ceil((self.t_1 - self.t) / self.sample_duration) as usize;
             let loop_samples = min(size - i, segment_samples_left);
             for channel in 0..self.outputs() {
                 let mut value = self.value[channel];
@@ -334,7 +324,7 @@ where
                 self.value[channel] = value;
             }
             i += loop_samples;
-            self.t += F::new(loop_samples as i64) * self.sample_duration;
+            self.t += loop_samples as f64 * self.sample_duration;
             if loop_samples == segment_samples_left && i < size {
                 self.next_segment(&Frame::generate(|j| input.at_f32(j, i)));
             }
@@ -343,7 +333,7 @@ where
 
     fn set(&mut self, setting: Setting) {
         if let Parameter::Interval(time) = setting.parameter() {
-            self.interval = F::from_f32(*time);
+            self.interval = *time as f64;
         }
     }
 
-- 
2.43.0


From 1d56970441f6120d513fae3857c6167a994412a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:18 +0000
Subject: [PATCH 43/51] fix: envelopes keep up with time when the interval is
 shorter than a sample

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 0b517a6..9f38898 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -82,6 +82,8 @@ where
         self.value_0 = self.value_1.clone();
         // Jitter the next sample point.
         let next_interval = lerp(0.75, 1.25, rnd1(self.t_hash)) * self.interval;
+        // Each segment must contain at least one sample.
+        let next_interval = max(next_interval, self.sample_duration);
         self.t_1 = self.t_0 + next_interval;
         let value_1: Frame<_, _> = (self.envelope)(convert(self.t_1)).frame();
         self.value_1 = Frame::generate(|i| convert(value_1[i]));
@@ -255,6 +257,8 @@ where
         }
         // Jitter the next sample point.
         let next_interval = lerp(0.75, 1.25, rnd1(self.t_hash)) * self.interval;
+        // Each segment must contain at least one sample.
+        let next_interval = max(next_interval, self.sample_duration);
         self.t_1 = self.t_0 + next_interval;
         let value_1: Frame<_, _> = (self.envelope)(convert(self.t_1), input).frame();
         self.value_1 = Frame::generate(|i| convert(value_1[i]));
-- 
2.43.0


From d3ae43da87f4aa4a3dcb081628903ade8721a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:19 +0000
Subject: [PATCH 44/51] fix: adsr_live releases at once when the release time
 is zero

---
 src/adsr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adsr.rs b/src/adsr.rs
index cc1c08f..5e59e0a 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -45,6 +45,8 @@ pub fn adsr_live(
         let ads_value = ads(attack, decay, sustain, time - attack_start);
         if held {
             ads_value
+        } else if release <= 0.0 {
+            0.0
         } else {
             ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
-- 
2.43.0


From b4a87394eb5e196b75326ff440ff3ad1f99f8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 45/51] fix: oversampling filters are minimum phase, not
 maximum phase

---
 src/oversample.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oversample.rs b/src/oversample.rs
index 38307f4..f03eb40 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -151,12 +151,14 @@ const HALFBAND_MIN: [f32; HALFBAND_MIN_LEN] = [
     -9.41945265e-04,
 ];
 
+// The filters read the buffer from the oldest sample to the newest.
+
 #[inline]
 fn tick_even(v: &Frame<f32, U128>, j: usize) -> f32 {
     let j = j + 0x80 - HALFBAND_MIN_LEN;
     let mut output = 0.0;
     for i in 0..HALFBAND_MIN_LEN / 2 + 1 {
-        output += v[(j + i * 2) & 0x7f] * HALFBAND_MIN[i * 2];
+        output += v[(j + i * 2) & 0x7f] * HALFBAND_MIN[HALFBAND_MIN_LEN - 1 - i * 2];
     }
     output * 2.0
 }
@@ -166,7 +168,7 @@ fn tick_odd(v: &Frame<f32, U128>, j: usize) -> f32 {
     let j = j + 0x80 - HALFBAND_MIN_LEN;
     let mut output = 0.0;
     for i in 0..HALFBAND_MIN_LEN / 2 {
-        output += v[(j + i * 2 + 1) & 0x7f] * HALFBAND_MIN[i * 2 + 1];
+        output += v[(j + i * 2 + 1) & 0x7f] * HALFBAND_MIN[HALFBAND_MIN_LEN - 2 - i * 2];
     }
     output * 2.0
 }
@@ -176,7 +178,7 @@ fn tick(v: &Frame<f32, U128>, j: usize) -> f32 {
     let j = j + 0x80 - HALFBAND_MIN_LEN;
     let mut output = 0.0;
     for i in 0..HALFBAND_MIN_LEN {
-        output += v[(j + i) & 0x7f] * HALFBAND_MIN[i];
+        output += v[(j + i) & 0x7f] * HALFBAND_MIN[HALFBAND_MIN_LEN - 1 - i];
     }
     output
 }
-- 
2.43.0


From a5669fc3e2bbe7f3895a0be8a54f9e706674fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 46/51] fix: nonlinear biquads pass the sample rate on to their
 waveshapers

---
 src/biquad.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index d3174ca..0f8edd3 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -545,6 +545,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -688,6 +689,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedFbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -755,6 +757,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for DirtyBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -908,6 +912,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedDirtyBiquad<F, M, S
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-- 
2.43.0


From 249db0d926ea1bec9e2bce36590cfb237cdb2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 47/51] fix: set_gain takes effect in bell and shelf filters

---
 src/svf.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/svf.rs b/src/svf.rs
index 4c84bca..87971d4 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -593,6 +593,10 @@ impl<F: Real> SvfMode<F> for BellMode<F> {
         *coefs = SvfCoefs::bell(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -647,6 +651,10 @@ impl<F: Real> SvfMode<F> for LowshelfMode<F> {
         *coefs = SvfCoefs::lowshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -704,6 +712,10 @@ impl<F: Real> SvfMode<F> for HighshelfMode<F> {
         *coefs = SvfCoefs::highshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
-- 
2.43.0


From 60b4067d77c8b4980c36fc06a495f79d92b8929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 48/51] fix: subsampled filters read their parameters at the
 first sample

---
 src/svf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 87971d4..97665d3 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -844,13 +844,15 @@ where
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        self.counter += 1;
-        if self.counter >= self.period {
-            self.counter = 0;
+        if self.counter == 0 {
             // Update parameters from input.
             self.mode
                 .update_inputs(input, &mut self.params, &mut self.coefs);
         }
+        self.counter += 1;
+        if self.counter >= self.period {
+            self.counter = 0;
+        }
         let v0 = F::from_f32(input[0]);
         let v3 = v0 - self.ic2eq;
         let v1 = self.coefs.a1 * self.ic1eq + self.coefs.a2 * v3;
-- 
2.43.0


From 30e6ac0a723ce4616fd18ba46bcd2d787d0a79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:02 +0000
Subject: [PATCH 49/51] fix: a network keeps the hash given to it by the
 enclosing graph

---
 src/net.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index b9c2567..3bb76d8 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -145,6 +145,8 @@ pub struct Net {
     revision: u64,
     /// Current error, if any.
     error: Option<NetError>,
+    /// Hash received from an enclosing graph or the user, if any.
+    hash: Option<AttoHash>,
 }
 
 impl Clone for Net {
@@ -165,6 +167,7 @@ impl Clone for Net {
             edit_queue: Vec::new(),
             revision: self.revision,
             error: self.error.clone(),
+            hash: self.hash.clone(),
         }
     }
 }
@@ -196,6 +199,7 @@ impl Net {
             edit_queue: Vec::new(),
             revision: 0,
             error: None,
+            hash: None,
         };
         for channel in 0..outputs {
             net.output_edge
@@ -839,6 +843,15 @@ impl Net {
         &mut *self.vertex[self.node_index[&node]].unit
     }
 
+    /// Ping contained units.
+    fn ping_units(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        let mut hash = hash.hash(ID);
+        for x in self.vertex.iter_mut() {
+            hash = x.unit.ping(probe, hash);
+        }
+        hash
+    }
+
     /// Compute and store node order for this network.
     fn determine_order(&mut self) {
         // Update source vertex shortcut.
@@ -846,8 +859,11 @@ impl Net {
             self.vertex[j].update_source_vertex();
         }
         // Update net hash. We have designed the hash to depend on vertices but not edges.
-        let hash = self.ping(true, AttoHash::new(ID));
-        self.ping(false, hash);
+        let hash = match &self.hash {
+            Some(hash) => hash.clone(),
+            None => self.ping_units(true, AttoHash::new(ID)),
+        };
+        self.ping_units(false, hash);
         let mut order = match self.order.take() {
             Some(v) => v,
             None => Vec::with_capacity(self.vertex.len()),
@@ -1391,11 +1407,10 @@ impl AudioUnit for Net {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
-        let mut hash = hash.hash(ID);
-        for x in self.vertex.iter_mut() {
-            hash = x.unit.ping(probe, hash);
+        if !probe {
+            self.hash = Some(hash.clone());
         }
-        hash
+        self.ping_units(probe, hash)
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-- 
2.43.0


From b5aa7db9342688a06e0531697f2f3a34e536c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:58 +0000
Subject: [PATCH 50/51] fix: pass-through operator renders nodes that have no
 inputs in blocks too

---
 src/audionode.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index feaa465..1391903 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -1788,10 +1788,6 @@ impl<X: AudioNode> AudioNode for Thru<X> {
         })
     }
     fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
-        if X::Inputs::USIZE == 0 {
-            // This is an empty node.
-            return;
-        }
         if X::Inputs::USIZE < X::Outputs::USIZE {
             // An intermediate buffer is only used in this "degenerate" case where
             // we are not passing through inputs - we are cutting out some of them.
-- 
2.43.0


From 36e4461a7781e140d5a52bdaba41fd9f007686a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:58 +0000
Subject: [PATCH 51/51] fix: Wave::render_latency resets the node as documented

---
 src/wave.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wave.rs b/src/wave.rs
index 6766379..bd4bbbd 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -478,6 +478,7 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        node.reset();
         // The latency may depend on the sample rate.
         node.set_sample_rate(sample_rate);
         let latency = node.latency().unwrap_or_default();
-- 
2.43.0

