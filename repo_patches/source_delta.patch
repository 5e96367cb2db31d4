From 1bc8146f5bd0b1e29918b993fec5556e31beff2a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:55:10 +0000
Subject: [PATCH 01/51] fix: DummyUnit::process zeroes all requested samples,
 not just one per SIMD item

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From 41a0cab50d4900d3bea439b783d204dce65cdfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 02/51] fix: Sequencer::process applies fades at the event's
 position inside the block, as tick does

---
 src/sequencer.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..f141a8f 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -131,8 +131,10 @@ fn fade_in(
         let fade_end_i = if fade_end_time >= end_time {
             end_index
         } else {
-            round((fade_end_time - time) / sample_duration) as usize
+            ceil((fade_end_time - time) / sample_duration) as usize
         };
+        // The first sample in the buffer is at `start_index`.
+        let fade_n = min(fade_end_i, end_index).saturating_sub(start_index);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -143,7 +145,7 @@ fn fade_in(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[..fade_n].iter_mut() {
                         *x *= sine_ease(fade);
                         fade += fade_d;
                     }
@@ -152,7 +154,7 @@ fn fade_in(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[..fade_n].iter_mut() {
                         *x *= smooth5(fade);
                         fade += fade_d;
                     }
@@ -167,7 +169,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -179,8 +181,11 @@ fn fade_out(
         let fade_i = if fade_start_time <= time {
             0
         } else {
-            round((fade_start_time - time) / sample_duration) as usize
+            ceil((fade_start_time - time) / sample_duration) as usize
         };
+        // The first sample in the buffer is at `start_index`.
+        let fade_i = max(fade_i, start_index);
+        let fade_n = end_index.saturating_sub(fade_i);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -191,7 +196,9 @@ fn fade_out(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in
+                        output.channel_f32_mut(channel)[fade_i - start_index..][..fade_n].iter_mut()
+                    {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -200,7 +207,9 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in
+                        output.channel_f32_mut(channel)[fade_i - start_index..][..fade_n].iter_mut()
+                    {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From 7cfd7f4decaa0f41f815f1f5c6b7bf483b277436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 03/51] fix: Sequencer fade-in does not extrapolate the fade
 curve below zero

---
 src/sequencer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index f141a8f..1ca35bd 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -146,7 +146,7 @@ fn fade_in(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_n].iter_mut() {
-                        *x *= sine_ease(fade);
+                        *x *= sine_ease(max(0.0, fade));
                         fade += fade_d;
                     }
                 }
@@ -155,7 +155,7 @@ fn fade_in(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_n].iter_mut() {
-                        *x *= smooth5(fade);
+                        *x *= smooth5(max(0.0, fade));
                         fade += fade_d;
                     }
                 }
@@ -660,11 +660,15 @@ impl AudioUnit for Sequencer {
             } else {
                 self.active[i].unit.tick(input, &mut self.tick_buffer);
                 if self.active[i].fade_in > 0.0 {
-                    let fade_in = delerp(
-                        self.active[i].start_time,
-                        self.active[i].start_time + self.active[i].fade_in,
-                        self.time,
-                    ) as f32;
+                    // The event starts at the sample closest to start time, which may precede it.
+                    let fade_in = max(
+                        0.0,
+                        delerp(
+                            self.active[i].start_time,
+                            self.active[i].start_time + self.active[i].fade_in,
+                            self.time,
+                        ) as f32,
+                    );
                     if fade_in < 1.0 {
                         match self.active[i].fade_ease {
                             Fade::Power => {
-- 
2.43.0


From 83cb2dd84d7e4213654140980a9fa26c4fadf80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 04/51] fix: WaveSynth starts in its reset state, so that reset
 replays the stream

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..fdff6bf 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From 48ff817dfeb14145d548caf8bf40282984a54727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:07 +0000
Subject: [PATCH 05/51] fix: Mls::reset restores the initial state when no seed
 or hash was set

---
 src/noise.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..b464b4d 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,18 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
             mls,
+            initial: mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +122,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial,
+        };
     }
 
     #[inline]
@@ -138,7 +142,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From 62c99c4b48effd8b0768c4607d0412f34dc7441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:07 +0000
Subject: [PATCH 06/51] fix: Reverb resets and rescales its input allpasses

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From f3470bc0806b29e5d56e5972225ccca6e2d0d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:36 +0000
Subject: [PATCH 07/51] fix: Adaptive shape starts from the same level estimate
 that reset restores

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..1f52e33 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From 6eb6ce31996e3074b02c3a1d6a939407ff1ec421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:36 +0000
Subject: [PATCH 08/51] fix: Limiter::reset resets its level follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..d0516c8 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -191,6 +191,7 @@ where
             self.reducer = Self::new_buffer(sample_rate, self.lookahead);
         }
         self.follower.set_sample_rate(sample_rate);
+        self.follower.reset();
         self.reducer.clear();
         self.buffer.clear();
     }
-- 
2.43.0


From e178c04e795545fb485604cfb578528a092d7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:10 +0000
Subject: [PATCH 09/51] fix: adsr_live keeps its state per instance and
 restarts it on reset

---
 src/adsr.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..83ea899 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -26,27 +26,26 @@ pub fn adsr_live(
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
     let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    // The state is owned by the closure, so each clone of the envelope has its own.
+    let mut attack_start = zero;
+    let mut release_start = neg1;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time <= zero {
+            // The envelope starts from the beginning or has been reset.
+            attack_start = zero;
+            release_start = neg1;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if release_start >= zero && control > zero {
+            attack_start = time;
+            release_start = neg1;
+        } else if release_start < zero && control <= zero {
+            release_start = time;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if release_start < zero {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From 94a394fdea291ce8dacd0857802e2a27091173f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 10/51] fix: shaped biquads pass the sample rate on to their
 waveshaper

---
 src/biquad.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d435e9c 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -535,6 +535,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -678,6 +679,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedFbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -745,6 +747,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for DirtyBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -898,6 +902,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedDirtyBiquad<F, M, S
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-- 
2.43.0


From f2b8cbc6ea37599f3a40064b51e9f6b0a561e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 11/51] fix: Feedback2::allocate also allocates the feedback
 path

---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From 1b965362516bdc9e235f0c234033cd33a3db064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 12/51] fix: SettingListener passes settings and allocate on to
 the node it wraps

---
 src/setting.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..60febb8 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -306,10 +306,18 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
 
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         self.receive_settings();
         self.x.route(input, frequency)
-- 
2.43.0


From c0c5d2b840480cb4dc67bbfe0d525990abb3a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:06 +0000
Subject: [PATCH 13/51] fix: Reverb forwards ping and allocate to its loop
 filters

---
 src/reverb.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index 314bce9..22dd6b0 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -282,4 +282,20 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, 2)
     }
+
+    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        let mut hash = hash.hash(Self::ID);
+        for block in self.block.iter_mut() {
+            hash = block.filter0.ping(probe, hash);
+            hash = block.filter1.ping(probe, hash);
+        }
+        hash
+    }
+
+    fn allocate(&mut self) {
+        for block in self.block.iter_mut() {
+            block.filter0.allocate();
+            block.filter1.allocate();
+        }
+    }
 }
-- 
2.43.0


From c1669761f27ed920b6bdcec27fbc02e03296c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:27 +0000
Subject: [PATCH 14/51] fix: Slot prepares new units for the sample rate of its
 backend

---
 src/slot.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..857439f 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::*;
 use super::signal::*;
 use super::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
@@ -17,7 +18,8 @@ enum SlotMessage {
     #[default]
     Nothing,
     /// Update unit using fade shape and fade time (in seconds).
-    Update(Fade, f64, Box<dyn AudioUnit>),
+    /// The third field is the sample rate the unit has been prepared for.
+    Update(Fade, f64, f64, Box<dyn AudioUnit>),
     /// Return a unit for deallocation.
     #[allow(dead_code)]
     Return(Box<dyn AudioUnit>),
@@ -27,6 +29,8 @@ enum SlotMessage {
 pub struct Slot {
     inputs: usize,
     outputs: usize,
+    /// Sample rate of the backend.
+    sample_rate: Shared,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
 }
@@ -39,9 +43,11 @@ impl Slot {
         let (sender_b, receiver_b) = channel(1024);
         let inputs = initial_unit.inputs();
         let outputs = initial_unit.outputs();
+        let slot_rate = Shared::new(DEFAULT_SR as f32);
         let slot = Slot {
             inputs,
             outputs,
+            sample_rate: slot_rate.clone(),
             receiver: receiver_a,
             sender: sender_b,
         };
@@ -51,6 +57,7 @@ impl Slot {
             inputs,
             outputs,
             sample_rate: DEFAULT_SR,
+            slot_rate,
             current: initial_unit,
             next: None,
             fade: Fade::Smooth,
@@ -69,12 +76,16 @@ impl Slot {
 
     /// Set the unit. The current unit will be faded out and the new unit will be faded in
     /// simultaneously.
-    pub fn set(&mut self, fade: Fade, fade_time: f64, unit: Box<dyn AudioUnit>) {
+    pub fn set(&mut self, fade: Fade, fade_time: f64, mut unit: Box<dyn AudioUnit>) {
         assert_eq!(self.inputs, unit.inputs());
         assert_eq!(self.outputs, unit.outputs());
         // Deallocate units that were sent back.
         while self.receiver.try_recv().is_ok() {}
-        let message = SlotMessage::Update(fade, fade_time, unit);
+        // Make sure the sample rate of the unit matches the backend.
+        let sample_rate = self.sample_rate.value() as f64;
+        unit.set_sample_rate(sample_rate);
+        unit.allocate();
+        let message = SlotMessage::Update(fade, fade_time, sample_rate, unit);
         if self.sender.try_send(message).is_ok() {}
     }
 
@@ -93,6 +104,8 @@ pub struct SlotBackend {
     inputs: usize,
     outputs: usize,
     sample_rate: f64,
+    /// Sample rate communicated to the frontend.
+    slot_rate: Shared,
     current: Box<dyn AudioUnit>,
     next: Option<Box<dyn AudioUnit>>,
     fade: Fade,
@@ -115,6 +128,7 @@ impl Clone for SlotBackend {
             inputs: self.inputs,
             outputs: self.outputs,
             sample_rate: self.sample_rate,
+            slot_rate: Shared::new(self.sample_rate as f32),
             current: self.current.clone(),
             next: self.next.clone(),
             fade: self.fade.clone(),
@@ -135,7 +149,11 @@ impl SlotBackend {
     /// Handle updates.
     fn handle_messages(&mut self) {
         while let Ok(message) = self.receiver.try_recv() {
-            if let SlotMessage::Update(fade, fade_time, unit) = message {
+            if let SlotMessage::Update(fade, fade_time, sample_rate, mut unit) = message {
+                if sample_rate != self.sample_rate {
+                    // The sample rate changed while the unit was on its way.
+                    unit.set_sample_rate(self.sample_rate);
+                }
                 if self.next.is_none() {
                     self.next = Some(unit);
                     self.fade_phase = 0.0;
@@ -185,6 +203,7 @@ impl AudioUnit for SlotBackend {
     #[allow(clippy::unnecessary_cast)]
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_rate = sample_rate;
+        self.slot_rate.set_value(sample_rate as f32);
         self.current.set_sample_rate(sample_rate);
         if let Some(next) = self.next.as_deref_mut() {
             next.set_sample_rate(sample_rate);
-- 
2.43.0


From 2c76ce86729e9f089de60e5b11622425315100f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 15/51] fix: Slot pings all nodes of its units, not just the
 outermost one

---
 src/slot.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 857439f..05f20c1 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -310,12 +310,12 @@ impl AudioUnit for SlotBackend {
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         if !probe {
-            self.current.set_hash(hash.state());
+            self.current.ping(false, hash.clone());
             if let Some(next) = self.next.as_deref_mut() {
-                next.set_hash(hash.state());
+                next.ping(false, hash.clone());
             }
             if let Some(latest) = self.latest.as_deref_mut() {
-                latest.set_hash(hash.state());
+                latest.ping(false, hash.clone());
             }
         }
         hash.hash(self.get_id())
-- 
2.43.0


From a4acd27a0a2d693107734a76bcc182b3b0f3df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:53 +0000
Subject: [PATCH 16/51] fix: a nested Net keeps the phase hash given by its
 parent

---
 src/net.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..6ba48a2 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -837,9 +837,6 @@ impl Net {
         for j in 0..self.vertex.len() {
             self.vertex[j].update_source_vertex();
         }
-        // Update net hash. We have designed the hash to depend on vertices but not edges.
-        let hash = self.ping(true, AttoHash::new(ID));
-        self.ping(false, hash);
         let mut order = match self.order.take() {
             Some(v) => v,
             None => Vec::with_capacity(self.vertex.len()),
@@ -850,6 +847,9 @@ impl Net {
             self.error = Some(NetError::Cycle);
         }
         self.order = Some(order);
+        // Update net hash. We have designed the hash to depend on vertices but not edges.
+        let hash = self.ping(true, AttoHash::new(ID));
+        self.ping(false, hash);
     }
 
     /// Determine node order in the supplied vector. Returns true if successful, false
@@ -1369,6 +1369,11 @@ impl AudioUnit for Net {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        if !self.is_ordered() {
+            // Determining the order pings the network, so do it before
+            // and not after we set the hash given to us.
+            self.determine_order();
+        }
         let mut hash = hash.hash(ID);
         for x in self.vertex.iter_mut() {
             hash = x.unit.ping(probe, hash);
-- 
2.43.0


From bdc92f79d6fb9fcca13fdce5b4c4daf2948ff96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 17/51] fix: NetBackend handles commits and settings in the
 order they were sent

When several commits were waiting, crossfades and fade-ins of nodes introduced
or replaced in a superseded commit were lost, and so were settings sent
to nodes of a commit that was still waiting.
---
 src/net.rs     | 13 -----------
 src/realnet.rs | 61 +++++++++++++++++---------------------------------
 2 files changed, 21 insertions(+), 53 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 6ba48a2..9b4be0a 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1288,19 +1288,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..77e6963 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -60,50 +60,31 @@ impl NetBackend {
     }
 
     /// Handle changes made to the backend.
+    /// The messages are handled in the order they were sent, as settings and node edits
+    /// may refer to nodes introduced in an earlier message.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
-        #[allow(clippy::while_let_loop)]
-        loop {
-            match self.receiver.try_recv() {
-                Ok(message) => {
-                    match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
-                        }
-                        NetMessage::Setting(setting) => {
-                            self.net.set(setting);
-                        }
-                        NetMessage::Null => (),
-                    }
+        while let Ok(message) = self.receiver.try_recv() {
+            match message {
+                NetMessage::Net(mut net) => {
+                    // Migrate existing nodes to the new network.
+                    self.net.migrate(&mut net);
+                    core::mem::swap(&mut net, &mut self.net);
+                    self.net.apply_edits(&self.sender);
+                    // Send the previous network back for deallocation.
+                    if self
+                        .sender
+                        .as_ref()
+                        .unwrap()
+                        .try_send(NetReturn::Net(net))
+                        .is_ok()
+                    {}
                 }
-                _ => break,
+                NetMessage::Setting(setting) => {
+                    self.net.set(setting);
+                }
+                NetMessage::Null => (),
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From 4f93e1b19581da48197768314746defcfe57b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 18/51] fix: NetBackend picks up waiting commits before it
 applies a sample rate or reset

---
 src/realnet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/realnet.rs b/src/realnet.rs
index 77e6963..74499f9 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -98,13 +98,13 @@ impl AudioUnit for NetBackend {
     }
 
     fn reset(&mut self) {
-        self.net.reset();
         self.handle_messages();
+        self.net.reset();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.net.set_sample_rate(sample_rate);
         self.handle_messages();
+        self.net.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &[f32], output: &mut [f32]) {
-- 
2.43.0


From 8e7c3926aa2b550dca55d7b4e641fddc2c7764b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 19/51] fix: Net::remove_link does not create a self connection
 when it removes a node from a cycle

---
 src/net.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index 9b4be0a..ddf62cd 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -400,7 +400,12 @@ impl Net {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
                         self.vertex[vertex].source[channel].source = if link {
-                            self.vertex[node_index].source[port].source
+                            match self.vertex[node_index].source[port].source {
+                                // Removing a node of a two node cycle must not
+                                // result in a self connection.
+                                Port::Local(source, _) if source == vertex => Port::Zero,
+                                source => source,
+                            }
                         } else {
                             Port::Zero
                         };
-- 
2.43.0


From 798d235f75887df815d77d77d129d96d4dc162db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 20/51] fix: Net passes the sample rate and reset on to units
 that are being faded in

---
 src/net.rs    | 10 ++++++++--
 src/vertex.rs | 21 +++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index ddf62cd..7661617 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1309,13 +1309,19 @@ impl AudioUnit for Net {
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
-                vertex.unit.set_sample_rate(sample_rate as f64);
+                vertex.set_sample_rate(sample_rate as f64);
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in &mut self.edit_queue {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                    unit.allocate();
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
@@ -1325,7 +1331,7 @@ impl AudioUnit for Net {
 
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
-            vertex.unit.reset();
+            vertex.reset();
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..6bcc00f 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -90,6 +90,27 @@ impl Vertex {
         self.tick_output.len()
     }
 
+    /// Set the sample rate of the unit and of any units we are going to fade into.
+    pub fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.unit.set_sample_rate(sample_rate);
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.set_sample_rate(sample_rate);
+                unit.allocate();
+            }
+        }
+    }
+
+    /// Reset the unit and any units we are going to fade into.
+    pub fn reset(&mut self) {
+        self.unit.reset();
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.reset();
+            }
+        }
+    }
+
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
-- 
2.43.0


From 6a2d058e19566f965ffeaeffe6163ca9a05e34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 21/51] fix: combining two Nets brings their units to a common
 sample rate

The combined Net kept the sample rate of the first one while units of the second one
kept theirs, and a following set_sample_rate with the rate of the first one did nothing.
---
 src/net.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 7661617..ea6127c 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1169,6 +1169,16 @@ impl Net {
         self.revision += 1;
     }
 
+    /// Settle on a common sample rate for a binary combination.
+    /// A network with the default sample rate adopts the sample rate of the other one.
+    fn resolve_sample_rate(&mut self, other: &mut Net) {
+        if self.sample_rate == DEFAULT_SR as f32 {
+            self.set_sample_rate(other.sample_rate as f64);
+        } else {
+            other.set_sample_rate(self.sample_rate as f64);
+        }
+    }
+
     /// Resolve new frontend for a binary combination.
     fn resolve_frontend(&mut self, other: &mut Net) {
         if self.has_backend() && other.has_backend() {
@@ -1461,6 +1471,7 @@ impl Net {
                 net2.inputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
@@ -1517,6 +1528,7 @@ impl Net {
 
     /// Given nets `net1` and `net2`, create and return net `net1 | net2`.
     pub fn stack(mut net1: Net, mut net2: Net) -> Net {
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
@@ -1589,6 +1601,7 @@ impl Net {
                 net2.outputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
@@ -1696,6 +1709,7 @@ impl Net {
                 net2.outputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
@@ -1771,6 +1785,7 @@ impl Net {
                 net2.inputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         net1.vertex.append(&mut net2.vertex);
-- 
2.43.0


From 3b4a91a2a233c0bc93996b797b95ca8c294a855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 22/51] fix: Net::check does not inspect stale source vertices
 of a Net that has been edited

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index ea6127c..cb12d8a 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1030,6 +1030,10 @@ impl Net {
                     _ => (),
                 }
             }
+            // The source vertex shortcut is stale until the order is determined again.
+            if !self.is_ordered() {
+                continue;
+            }
             if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
-- 
2.43.0


From 0726d8f5976045efde24d9476b79c3146e21cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:36 +0000
Subject: [PATCH 23/51] fix: Net::replace supersedes earlier crossfades of the
 same node

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index cb12d8a..1c18e00 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -470,6 +470,10 @@ impl Net {
         assert_eq!(unit.outputs(), self.vertex[node_index].outputs());
         unit.set_sample_rate(self.sample_rate as f64);
         core::mem::swap(&mut self.vertex[node_index].unit, &mut unit);
+        // The replacement supersedes crossfades under way.
+        self.vertex[node_index].next.unit = None;
+        self.vertex[node_index].latest.unit = None;
+        self.edit_queue.retain(|edit| edit.id != node);
         self.vertex[node_index].changed = self.revision;
         unit
     }
-- 
2.43.0


From d9e89dd46f6dcd53bb5d19e93b30cd49be1f1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:38 +0000
Subject: [PATCH 24/51] fix: Net frontend does not revert a crossfaded unit
 when the sample rate is changed or the net is reset

---
 src/net.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 1c18e00..8f1bd12 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1159,6 +1159,12 @@ impl Net {
         // Send over the original nodes to the backend.
         // This is necessary if the nodes contain any backends, which cannot be cloned effectively.
         core::mem::swap(&mut net.vertex, &mut self.vertex);
+        // Keep track of the units we are fading into, in case they need to be sent again.
+        for edit in net.edit_queue.iter() {
+            if let Some(unit) = &edit.unit {
+                self.vertex[edit.index].unit = unit.clone();
+            }
+        }
         // Preallocate all necessary memory.
         net.allocate();
         if let Some((sender, receiver)) = &mut self.front {
-- 
2.43.0


From a12541de96f27e6eb57aef1e965865a3e0a4a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:35 +0000
Subject: [PATCH 25/51] fix: settings sent through a Net frontend are not lost
 on units being faded in, sent later or sent again

---
 src/net.rs    | 16 ++++++++++++----
 src/vertex.rs | 11 +++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 8f1bd12..fc33cb1 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1377,13 +1377,21 @@ impl AudioUnit for Net {
     }
 
     fn set(&mut self, setting: Setting) {
-        if let Some((sender, _receiver)) = &mut self.front {
-            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
-        } else if let Address::Node(id) = setting.direction() {
+        if let Address::Node(id) = setting.direction() {
+            // A frontend applies the setting to its own units as well,
+            // as they may not have been sent to the backend yet, or may have to be sent again.
             if let Some(index) = self.node_index.get(&id) {
-                self.vertex[*index].unit.set(setting.peel());
+                self.vertex[*index].set(setting.clone().peel());
+            }
+            for edit in self.edit_queue.iter_mut().filter(|edit| edit.id == id) {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set(setting.clone().peel());
+                }
             }
         }
+        if let Some((sender, _receiver)) = &mut self.front {
+            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
+        }
     }
 
     fn get_id(&self) -> u64 {
diff --git a/src/vertex.rs b/src/vertex.rs
index 6bcc00f..278ee19 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -6,6 +6,7 @@ use super::math::*;
 use super::net::*;
 use super::realnet::*;
 use super::sequencer::Fade;
+use super::setting::*;
 use thingbuf::mpsc::Sender;
 extern crate alloc;
 use alloc::boxed::Box;
@@ -111,6 +112,16 @@ impl Vertex {
         }
     }
 
+    /// Set the unit and any units we are going to fade into.
+    pub fn set(&mut self, setting: Setting) {
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.set(setting.clone());
+            }
+        }
+        self.unit.set(setting);
+    }
+
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
-- 
2.43.0


From bd6275f6d48c67be5f8a7176a3073eef4e0f0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:35 +0000
Subject: [PATCH 26/51] fix: a reset sent through a Sequencer frontend does not
 discard events pushed after it

---
 src/realseq.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..ebcc0c9 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -63,7 +63,7 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -82,6 +82,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the backend sequencer. Messages that are still waiting were sent after the reset.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -101,18 +117,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 30db232c019946b42c34f6b18973607500477347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:08 +0000
Subject: [PATCH 27/51] fix: events pushed through a Sequencer frontend run at
 the sample rate of the backend

---
 src/sequencer.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 1ca35bd..a77baee 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -4,7 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::realseq::*;
-use super::shared::IdGenerator;
+use super::shared::{IdGenerator, Shared};
 use super::signal::*;
 use super::*;
 use core::cmp::{Eq, Ord, Ordering};
@@ -65,6 +65,8 @@ pub(crate) struct Event {
     pub fade_in: f64,
     pub fade_out: f64,
     pub id: EventId,
+    /// Sample rate the unit has been prepared for.
+    pub sample_rate: f64,
 }
 
 impl Event {
@@ -75,6 +77,7 @@ impl Event {
         fade_ease: Fade,
         fade_in: f64,
         fade_out: f64,
+        sample_rate: f64,
     ) -> Self {
         Self {
             unit,
@@ -84,6 +87,7 @@ impl Event {
             fade_in,
             fade_out,
             id: EventId::new(),
+            sample_rate,
         }
     }
 }
@@ -239,6 +243,8 @@ pub struct Sequencer {
     time: f64,
     /// Current sample rate.
     sample_rate: f64,
+    /// Sample rate that is shared by a frontend and its backend.
+    shared_rate: Shared,
     /// Current sample duration.
     sample_duration: f64,
     /// Intermediate output buffer.
@@ -266,6 +272,8 @@ impl Clone for Sequencer {
             outputs: self.outputs,
             time: self.time,
             sample_rate: self.sample_rate,
+            // The rate of a clone is its own.
+            shared_rate: Shared::new(self.sample_rate as f32),
             sample_duration: self.sample_duration,
             buffer: self.buffer.clone(),
             tick_buffer: self.tick_buffer.clone(),
@@ -296,6 +304,7 @@ impl Sequencer {
             outputs,
             time: 0.0,
             sample_rate: DEFAULT_SR,
+            shared_rate: Shared::new(DEFAULT_SR as f32),
             sample_duration: 1.0 / DEFAULT_SR,
             buffer: BufferVec::new(outputs),
             tick_buffer: vec![0.0; outputs],
@@ -327,7 +336,8 @@ impl Sequencer {
         let duration = end_time - start_time;
         assert!(fade_in_time <= duration && fade_out_time <= duration);
         // Make sure the sample rate of the unit matches ours.
-        unit.set_sample_rate(self.sample_rate);
+        let sample_rate = self.rendering_rate();
+        unit.set_sample_rate(sample_rate);
         unit.allocate();
         let event = Event::new(
             unit,
@@ -336,14 +346,35 @@ impl Sequencer {
             fade_ease,
             fade_in_time,
             fade_out_time,
+            sample_rate,
         );
         let id = event.id;
         self.push_event(event);
         id
     }
 
+    /// Sample rate at which events are rendered. The backend does the rendering, if there is one.
+    fn rendering_rate(&self) -> f64 {
+        if self.has_backend() {
+            self.shared_rate.value() as f64
+        } else {
+            self.sample_rate
+        }
+    }
+
+    /// The sample rate of a backend may have changed while the event was on its way.
+    fn update_rate(&self, event: &mut Event) {
+        if event.sample_rate as f32 != self.sample_rate as f32 {
+            event.sample_rate = self.sample_rate;
+            event.unit.set_sample_rate(self.sample_rate);
+        }
+    }
+
     /// Add event. This is an internal method.
-    pub(crate) fn push_event(&mut self, event: Event) {
+    pub(crate) fn push_event(&mut self, mut event: Event) {
+        if !self.has_backend() {
+            self.update_rate(&mut event);
+        }
         if let Some((sender, receiver)) = &mut self.front {
             // Deallocate all past events.
             while receiver.try_recv().is_ok() {}
@@ -375,7 +406,8 @@ impl Sequencer {
         let duration = end_time - start_time;
         assert!(fade_in_time <= duration && fade_out_time <= duration);
         // Make sure the sample rate of the unit matches ours.
-        unit.set_sample_rate(self.sample_rate);
+        let sample_rate = self.rendering_rate();
+        unit.set_sample_rate(sample_rate);
         unit.allocate();
         let event = Event::new(
             unit,
@@ -384,6 +416,7 @@ impl Sequencer {
             fade_ease,
             fade_in_time,
             fade_out_time,
+            sample_rate,
         );
         let id = event.id;
         self.push_relative_event(event);
@@ -398,6 +431,7 @@ impl Sequencer {
             // Send the new event over.
             if sender.try_send(Message::PushRelative(event)).is_ok() {}
         } else {
+            self.update_rate(&mut event);
             event.start_time += self.time;
             event.end_time += self.time;
             if event.start_time < self.active_threshold {
@@ -548,6 +582,8 @@ impl Sequencer {
         let (sender_b, receiver_b) = channel(2048);
         let mut sequencer = self.clone();
         sequencer.allocate();
+        self.shared_rate.set_value(self.sample_rate as f32);
+        sequencer.shared_rate = self.shared_rate.clone();
         self.front = Some((sender_a, receiver_b));
         SequencerBackend::new(sender_b, receiver_a, sequencer)
     }
@@ -618,6 +654,9 @@ impl AudioUnit for Sequencer {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
+            if !self.has_backend() {
+                self.shared_rate.set_value(sample_rate as f32);
+            }
             self.sample_duration = 1.0 / sample_rate;
             // Move everything to the active queue, then set sample rate and move
             // everything to the ready heap.
@@ -628,6 +667,7 @@ impl AudioUnit for Sequencer {
                 self.active.push(past);
             }
             for i in 0..self.active.len() {
+                self.active[i].sample_rate = sample_rate;
                 self.active[i].unit.set_sample_rate(sample_rate);
             }
             while let Some(active) = self.active.pop() {
-- 
2.43.0


From bc5d23b8c3acd6bd295e61d3bfc8727bf5fa60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 28/51] fix: Limiter::allocate reserves room for the whole
 buffer

---
 src/dynamics.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index d0516c8..89244dd 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -231,10 +231,9 @@ where
     }
 
     fn allocate(&mut self) {
-        if self.buffer.capacity() < self.reducer.length() {
-            self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
-        }
+        // Make room for a full buffer.
+        self.buffer
+            .reserve(self.reducer.length().saturating_sub(self.buffer.len()));
     }
 }
 
-- 
2.43.0


From 0d50e515074d8111df8a78a18fca47ddd0645e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:00 +0000
Subject: [PATCH 29/51] fix: Sequencer::allocate also allocates its events

---
 src/sequencer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a77baee..9a53eeb 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -367,6 +367,7 @@ impl Sequencer {
         if event.sample_rate as f32 != self.sample_rate as f32 {
             event.sample_rate = self.sample_rate;
             event.unit.set_sample_rate(self.sample_rate);
+            event.unit.allocate();
         }
     }
 
@@ -862,6 +863,15 @@ impl AudioUnit for Sequencer {
         self.ready.reserve(DEFAULT_CAPACITY);
         self.past.reserve(DEFAULT_CAPACITY);
         self.edit_map.reserve(DEFAULT_CAPACITY);
+        // Preallocate the events as well.
+        for event in self.active.iter_mut().chain(self.past.iter_mut()) {
+            event.unit.allocate();
+        }
+        let mut ready = core::mem::take(&mut self.ready).into_vec();
+        for event in ready.iter_mut() {
+            event.unit.allocate();
+        }
+        self.ready = ready.into();
     }
 }
 
-- 
2.43.0


From 243f0fa87934f0a89ba3561588243c86d3f852e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:14 +0000
Subject: [PATCH 30/51] fix: scalar slices of BufferMut borrow the buffer, so
 that safe code cannot alias them

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index c9e5095..0dd81d3 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -62,7 +62,7 @@ impl<'a> BufferMut<'a> {
 
     /// Get channel as a scalar slice.
     #[inline]
-    pub fn channel_f32(&self, channel: usize) -> &'a [f32] {
+    pub fn channel_f32(&self, channel: usize) -> &[f32] {
         debug_assert!(channel < self.channels());
         let data = self.channel(channel).as_ptr() as *const f32;
         // Safety: we know each channel contains exactly `MAX_BUFFER_SIZE` samples.
@@ -71,7 +71,7 @@ impl<'a> BufferMut<'a> {
 
     /// Get channel as a mutable scalar slice.
     #[inline]
-    pub fn channel_f32_mut(&mut self, channel: usize) -> &'a mut [f32] {
+    pub fn channel_f32_mut(&mut self, channel: usize) -> &mut [f32] {
         debug_assert!(channel < self.channels());
         let data = self.channel_mut(channel).as_mut_ptr() as *mut f32;
         // Safety: we know each channel contains exactly `MAX_BUFFER_SIZE` samples.
-- 
2.43.0


From f00f839b1a66a0216b4d13c9dfb92877eac75d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 31/51] fix: Wave::retain handles a start past the end of the
 wave

---
 src/wave.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..39553d6 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -305,8 +305,9 @@ impl Wave {
     /// Only the part of the span overlapping the wave is considered.
     /// That is, the offset may be negative and the end of the span may lie beyond the end of the wave.
     pub fn retain(&mut self, start: isize, length: usize) {
-        let i0 = max(start, 0) as usize;
-        let i1 = min(self.length(), max(0, start + length as isize) as usize);
+        let i0 = min(self.length(), max(start, 0) as usize);
+        let end = start as i128 + length as i128;
+        let i1 = max(i0, min(self.length() as i128, max(0, end)) as usize);
         if i0 > 0 {
             for channel in 0..self.channels() {
                 for i in i0..i1 {
-- 
2.43.0


From 82d44739ec20d82611d9687aabf5958bdf727d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 32/51] fix: WAV writing reports errors from the final write

---
 src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..818f408 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,7 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +94,7 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From f5d5fa0dd5cb4869c74f1099eb3f32362ae1318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:59 +0000
Subject: [PATCH 33/51] fix: Wave latency rendering measures latency at the
 sample rate it renders at, and resets the generator as documented

---
 src/wave.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index 39553d6..3dbf085 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -478,6 +478,9 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency can depend on the sample rate.
+        node.set_sample_rate(sample_rate);
+        node.reset();
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -573,6 +576,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency can depend on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From f802ec305abc52dad41b7bd1e371e02f5ac5f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:59 +0000
Subject: [PATCH 34/51] fix: generators report their latency, so that latency
 is known in chains that start with one

---
 src/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..677b4ef 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,7 +176,7 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
-        if input.is_empty() {
+        if input.is_empty() && !matches!(self, Routing::Generator(_)) {
             return output;
         }
         match self {
-- 
2.43.0


From 13698b60678c5ef9fe5fdefae8c8d4724ab8f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:59 +0000
Subject: [PATCH 35/51] fix: arbitrary routing adds its latency once, however
 many inputs there are

---
 src/signal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 677b4ef..054622d 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -181,11 +181,11 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.distort(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From 1040bc907d548d95ea2d81890737de6ce8c42f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:33 +0000
Subject: [PATCH 36/51] fix: MultiStack and Reduce route only the inputs of the
 first node to it

---
 src/audionode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..d58c8df 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,7 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2202,7 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From 260a9ff06c465d67a04a2987aadad1ae68c2d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:34 +0000
Subject: [PATCH 37/51] fix: response of the morphing filter scales its dry
 path by the response of the input

---
 src/svf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..0b44ab8 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -1112,11 +1112,13 @@ impl<F: Real> AudioNode for Morph<F> {
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = self.filter.route(input, frequency);
+        let dry = input.at(0).scale(self.morph.to_f64());
         output.set(
             0,
-            output.at(0).filter(0.0, |r| {
-                (r + Complex64::new(self.morph.to_f64(), 0.0)) * 0.5
-            }),
+            output
+                .at(0)
+                .combine_linear(dry, 0.0, |x, y| x + y, |x, y| x + y)
+                .scale(0.5),
         );
         output
     }
-- 
2.43.0


From 3f9552d29aa6fa964e4cabc9b2fc32d64683f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:16 +0000
Subject: [PATCH 38/51] fix: Limiter does not amplify the beginning of a quiet
 signal

---
 src/dynamics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 89244dd..dcf4793 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -204,8 +204,9 @@ where
             // We are filling up the initial buffer.
             self.buffer.push(input.clone());
             if self.buffer.len() == self.reducer.length() {
-                // When the buffer is full, start following from its total peak.
-                self.follower.set_value(self.reducer.total());
+                // When the buffer is full, start following from its total peak, with headroom.
+                self.follower
+                    .set_value(max(1.0, self.reducer.total() * 1.10));
             }
             self.advance();
             Frame::default()
-- 
2.43.0


From 930221080479a0946bcf61765fcfa3c54d4d83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:19 +0000
Subject: [PATCH 39/51] fix: TapLinear buffer holds the samples that block
 processing writes ahead of the taps

---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From 309b248d8f7b3c9d07a18ad5653a1e13548a938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:19 +0000
Subject: [PATCH 40/51] fix: spline_mono slopes follow Steffen's method, so
 descending data does not overshoot

---
 src/math.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d183ada..b6107a9 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -372,8 +372,10 @@ pub fn spline_mono<T: Num>(y0: T, y1: T, y2: T, y3: T, x: T) -> T {
     let d0 = y1 - y0;
     let d1 = y2 - y1;
     let d2 = y3 - y2;
-    let d1d = (signum(d0) + signum(d1)) * min(d0 + d1, min(abs(d0), abs(d1)));
-    let d2d = (signum(d1) + signum(d2)) * min(d1 + d2, min(abs(d1), abs(d2)));
+    let d1d =
+        (signum(d0) + signum(d1)) * min(abs(d0 + d1) * T::from_f32(0.25), min(abs(d0), abs(d1)));
+    let d2d =
+        (signum(d1) + signum(d2)) * min(abs(d1 + d2) * T::from_f32(0.25), min(abs(d1), abs(d2)));
     x * x * x * (T::new(2) * y1 - T::new(2) * y2 + d1d + d2d)
         + x * x * (T::new(-3) * y1 + T::new(3) * y2 - T::new(2) * d1d - d2d)
         + x * d1d
-- 
2.43.0


From 6ce4e80dcc68d223c2a8c2b46f74cddc375b88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:58 +0000
Subject: [PATCH 41/51] fix: resonator_hz responds to its documented settings
 center and center_q

---
 src/biquad.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index d435e9c..0f8edd3 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -366,6 +366,16 @@ impl<F: Real, N: Size<f32>> AudioNode for Resonator<F, N> {
         self.biquad.tick(&[input[0]].into())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.parameter() {
+            Parameter::Center(center) => self.set_center_q(F::from_f32(*center), self.q),
+            Parameter::CenterQ(center, q) => {
+                self.set_center_q(F::from_f32(*center), F::from_f32(*q))
+            }
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = SignalFrame::new(self.outputs());
         output.set(
-- 
2.43.0


From 97f50a549766b8e7d08171111e833510c1786d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:59 +0000
Subject: [PATCH 42/51] fix: the coefficient of allnest_c can be set, with the
 setting it responds to

---
 README.md      | 2 +-
 src/setting.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/README.md b/README.md
index bd7d836..478b086 100644
--- a/README.md
+++ b/README.md
@@ -946,7 +946,7 @@ The following table summarizes the available settings.
 | Opcode            | `Setting` Constructor Call |
 | ----------------- | --------------------------------- |
 | `afollow`         | `attack_release` to set attack and release times in seconds |
-| `allnest_c`       | `delay` in samples at DC |
+| `allnest_c`       | `coefficient` to set feedforward coefficient |
 | `allpass_hz`      | `center_q` |
 | `allpole_delay`   | `delay` in samples at DC |
 | `bandpass_hz`     | `center_q` |
diff --git a/src/setting.rs b/src/setting.rs
index 60febb8..8c50102 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -106,6 +106,13 @@ impl Setting {
             address: ArrayVec::new(),
         }
     }
+    /// Create setting for a filter coefficient.
+    pub fn coefficient(coefficient: f32) -> Self {
+        Self {
+            parameter: Parameter::Coefficient(coefficient),
+            address: ArrayVec::new(),
+        }
+    }
     /// Create setting for biquad filter coefficients.
     pub fn biquad(a1: f32, a2: f32, b0: f32, b1: f32, b2: f32) -> Self {
         Self {
-- 
2.43.0


From 8284fa155e003f14894d388350a3e84785d49ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:43 +0000
Subject: [PATCH 43/51] fix: a subsampled filter reads its parameters at the
 first sample, also after a reset

---
 src/svf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 0b44ab8..4dd9101 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -832,13 +832,15 @@ where
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        self.counter += 1;
-        if self.counter >= self.period {
-            self.counter = 0;
+        if self.counter == 0 {
             // Update parameters from input.
             self.mode
                 .update_inputs(input, &mut self.params, &mut self.coefs);
         }
+        self.counter += 1;
+        if self.counter >= self.period {
+            self.counter = 0;
+        }
         let v0 = F::from_f32(input[0]);
         let v3 = v0 - self.ic2eq;
         let v1 = self.coefs.a1 * self.ic1eq + self.coefs.a2 * v3;
-- 
2.43.0


From 1fedb3f13eb771441d0d97562f17055290b4a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:31 +0000
Subject: [PATCH 44/51] fix: floor and ceil of SIMD numbers are exact at and
 near integers

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5af664..e1eba1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,7 +27,7 @@ use core::marker::{Send, Sync};
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use core::ops::{BitAnd, BitOr, BitXor, Not, Shl, Shr};
 
-use wide::{f32x8, f64x4, i32x8, u32x8};
+use wide::{f32x8, f64x4, i32x8, u32x8, CmpGt, CmpLt};
 
 /// Type-level integer. These are notated as `U0`, `U1`...
 pub trait Size<T>: ArrayLength + Sync + Send + Clone {}
@@ -324,11 +324,13 @@ impl Num for F32x {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let r = self.round();
+        r - r.cmp_gt(self).blend(F32x::ONE, F32x::ZERO)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let r = self.round();
+        r + r.cmp_lt(self).blend(F32x::ONE, F32x::ZERO)
     }
     #[inline(always)]
     fn round(self) -> Self {
@@ -381,11 +383,13 @@ impl Num for f64x4 {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let r = self.round();
+        r - r.cmp_gt(self).blend(wide::f64x4::ONE, wide::f64x4::ZERO)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let r = self.round();
+        r + r.cmp_lt(self).blend(wide::f64x4::ONE, wide::f64x4::ZERO)
     }
     #[inline(always)]
     fn round(self) -> Self {
-- 
2.43.0


From 1a5345bba4b775f0d61726d08df4d83ba2a469bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:35 +0000
Subject: [PATCH 45/51] fix: Crush rounds ties the same way in scalar and SIMD
 processing

---
 src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 1f52e33..e7fa282 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -128,7 +128,8 @@ pub struct Crush(pub f32);
 impl Shape for Crush {
     #[inline]
     fn shape(&mut self, input: f32) -> f32 {
-        (input * self.0).round() / self.0
+        // Round ties to even, like SIMD rounding does.
+        libm::rintf(input * self.0) / self.0
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-- 
2.43.0


From 08b8d3cf1e34f06c143779ff112954d6e8b97384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:10 +0000
Subject: [PATCH 46/51] fix: Softsign with a negative hardness is the same in
 SIMD processing

---
 src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index e7fa282..13b88ab 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -117,7 +117,8 @@ impl Shape for Softsign {
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-        input * self.0 / (F32x::ONE + input.abs() * self.0)
+        let x = input * self.0;
+        x / (F32x::ONE + x.abs())
     }
 }
 
-- 
2.43.0


From e274164b97e55f388d8ffe498400167ee96652ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:10 +0000
Subject: [PATCH 47/51] fix: a wavetable from a single cycle wave keeps the
 shape of the wave

---
 src/wavetable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index fdff6bf..fb3e1e3 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -132,9 +132,10 @@ impl Wavetable {
     pub fn from_wave(min_pitch: f64, max_pitch: f64, tables_per_octave: f64, wave: &[f32]) -> Self {
         let mut data = Vec::from(wave);
         let spectrum = super::fft::real_fft(&mut data);
+        // The spectrum has cosine phases while partials are sines.
         let phase = |i: u32| {
             if (i as usize) < spectrum.len() {
-                spectrum[i as usize].arg() as f64 / f64::TAU
+                spectrum[i as usize].arg() as f64 / f64::TAU + 0.25
             } else {
                 0.0
             }
-- 
2.43.0


From 61cf24a0147f2ba79aaa9b9d5ed95246049db57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:11 +0000
Subject: [PATCH 48/51] fix: DSF oscillators stay finite at zero and negative
 frequencies

---
 src/oscillator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oscillator.rs b/src/oscillator.rs
index 539e8bf..5547aab 100644
--- a/src/oscillator.rs
+++ b/src/oscillator.rs
@@ -180,7 +180,8 @@ impl<N: Size<f32>> AudioNode for Dsf<N> {
         }
         self.phase += input[0] * self.sample_duration;
         self.phase -= self.phase.floor();
-        let n = floor(22_050.0 / input[0] / self.harmonic_spacing);
+        // The number of partials stays finite at zero and negative frequencies.
+        let n = floor(22_050.0 / max(1.0, abs(input[0])) / self.harmonic_spacing);
         Frame::from([dsf(
             self.phase * f32::TAU,
             self.phase * f32::TAU * self.harmonic_spacing,
-- 
2.43.0


From 207d7c2448b665330d51c6714f5ffff994c3019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 49/51] fix: the limiter keeps looking at a sample until it has
 been output

---
 src/dynamics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index dcf4793..75f188a 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -199,6 +199,8 @@ where
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
         let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, abs(x)));
+        // The peak includes the sample about to be output.
+        let peak = self.reducer.total();
         self.reducer.set(self.index, amplitude);
         if self.buffer.len() < self.reducer.length() {
             // We are filling up the initial buffer.
@@ -215,7 +217,7 @@ where
             self.buffer[self.index] = input.clone();
             // Leave some headroom.
             self.follower
-                .filter_mono(max(1.0, self.reducer.total() * 1.10));
+                .filter_mono(max(1.0, max(peak, amplitude) * 1.10));
             self.advance();
             let limit = self.follower.value();
             output * Frame::splat(1.0 / limit)
-- 
2.43.0


From 1bb4eb21aa49f6ddfb1bcf8b79b6ccd4099ea185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 50/51] fix: adsr_live is silent until its first attack

---
 src/adsr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/adsr.rs b/src/adsr.rs
index 83ea899..754778d 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -29,11 +29,21 @@ pub fn adsr_live(
     // The state is owned by the closure, so each clone of the envelope has its own.
     let mut attack_start = zero;
     let mut release_start = neg1;
+    // There has been no attack yet.
+    let mut idle = true;
     envelope2(move |time, control| {
         if time <= zero {
             // The envelope starts from the beginning or has been reset.
             attack_start = zero;
             release_start = neg1;
+            idle = true;
+        }
+        if idle {
+            if control <= zero {
+                return zero;
+            }
+            attack_start = time;
+            idle = false;
         }
         if release_start >= zero && control > zero {
             attack_start = time;
-- 
2.43.0


From cc3d502e91f3f2509b2ea77ddc995455dc873a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:28 +0000
Subject: [PATCH 51/51] fix: FixedSvf::set_gain had no effect in the bell and
 shelf modes

---
 src/svf.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/svf.rs b/src/svf.rs
index 4dd9101..5ac560b 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -593,6 +593,10 @@ impl<F: Real> SvfMode<F> for BellMode<F> {
         *coefs = SvfCoefs::bell(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -647,6 +651,10 @@ impl<F: Real> SvfMode<F> for LowshelfMode<F> {
         *coefs = SvfCoefs::lowshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -704,6 +712,10 @@ impl<F: Real> SvfMode<F> for HighshelfMode<F> {
         *coefs = SvfCoefs::highshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
-- 
2.43.0

