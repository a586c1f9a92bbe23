From f9668a1c644d6a612a2525e6c9d783ca306e8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 01/33] Add model-checking hook: resolve std to the harness's
 stand-in under cfg(rawdio_mc)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 445d3b6..008235d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,6 +32,12 @@
 #[macro_use]
 extern crate approx;
 
+// Model-checking hook: the checked build resolves `std` (threads, atomics, hash maps) to the harness's stand-in,
+// which re-exports everything else unchanged.
+#[allow(unexpected_cfgs)]
+#[cfg(rawdio_mc)]
+extern crate crossbeam as std;
+
 mod buffer;
 mod commands;
 mod dsp;
-- 
2.43.0


From fa51082b9b806f691797c855ba90d47728edc88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 02/33] fix: removing a connected node panics on the audio
 thread

---
 src/realtime/graph.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..5029e8c 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -75,28 +75,31 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
     }
 
     pub fn remove_edge(&mut self, from_node_id: Id, to_node_id: Id) -> Option<EdgeData> {
-        let id = self.find_edge_between_nodes(from_node_id, to_node_id);
+        let id = self.find_edge_between_nodes(from_node_id, to_node_id)?;
+        self.remove_edge_with_id(id)
+    }
 
-        if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        let edge = self.edges.remove(&id)?;
 
-                return Some(edge.edge_data);
-            }
-        }
+        replace_connections(self, Direction::Outgoing, id, edge.next_out);
+        replace_connections(self, Direction::Incoming, id, edge.next_in);
 
-        None
+        Some(edge.edge_data)
     }
 
-    pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
-        if let Some((_, node)) = self.nodes.remove_entry(&id) {
-            assert!(node.incoming.is_none());
-            assert!(node.outgoing.is_none());
-            return Some(node.node_data);
+    fn remove_all_edges(&mut self, node_id: Id, direction: Direction) {
+        while let Some(edge_id) = self.edge_iterator(node_id, direction).next() {
+            self.remove_edge_with_id(edge_id);
         }
+    }
+
+    /// Remove a node, and any edges that are connected to it
+    pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        self.remove_all_edges(id, Direction::Incoming);
+        self.remove_all_edges(id, Direction::Outgoing);
 
-        None
+        self.nodes.remove(&id).map(|node| node.node_data)
     }
 
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
-- 
2.43.0


From ac580138cb061becc0e58de0664180ee3402efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 03/33] fix: connecting two nodes more than once is taken for a
 cycle

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 11 +++++------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 5029e8c..4911994 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -111,11 +111,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..e36703e 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,11 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            // two nodes can be connected by more than one edge
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From b8bebce2d9ae37ace4a69029871b60d6c0a5115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 04/33] fix: disconnecting two nodes leaves all but one of
 their connections

---
 src/realtime/dsp_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..59ae932 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,11 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From ffdc9e7ff0b23416a7ec630d2adfa934c2baabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 05/33] fix: node inputs drop the system input and ignore a
 connection's channel count

---
 src/realtime/dsp_graph.rs | 18 ++++++++++++------
 src/realtime/graph.rs     |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 59ae932..78c15e2 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -292,8 +292,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -307,10 +305,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -373,7 +369,17 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let connects_all_channels = edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+        && graph
+            .get_node(dsp_id)
+            .is_some_and(|dsp| edge.edge_data.channel_count >= dsp.input_count());
+
+    let has_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
+    if connects_all_channels && !has_system_input {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 4911994..cec0608 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -102,6 +102,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.remove(&id).map(|node| node.node_data)
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 5a4b6e6d8d12a15ab4054842efc2f247a5703828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 06/33] fix: cancelling the parameter changes that end after a
 time cancels the others

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..9b0b686 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -173,7 +173,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From aedb1e36ab49e46fdb4843e3ad6df48dab5d66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:48 +0000
Subject: [PATCH 07/33] fix: only one of the parameter changes due at a frame
 takes effect at it

---
 src/parameter/realtime_parameter.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 9b0b686..382866a 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -109,16 +109,22 @@ impl RealtimeAudioParameter {
         self.set_value(value);
     }
 
-    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, value: f64) -> f64 {
+    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        // changes that have already ended all take effect now, in order
+        while let Some(next_event) = self.parameter_changes.first() {
+            if next_event.end_time > *time {
+                break;
+            }
+
+            self.increment = 0.0;
+            self.coefficient = 1.0;
+            self.current_change = self.parameter_changes.remove(0);
+            value = self.current_change.value;
+        }
+
         if let Some(next_event) = self.parameter_changes.first() {
             match next_event.method {
-                ValueChangeMethod::Immediate => {
-                    if next_event.end_time <= *time {
-                        self.increment = 0.0;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
-                }
+                ValueChangeMethod::Immediate => (),
                 ValueChangeMethod::Linear(start_time) => {
                     if *time >= start_time {
                         let duration = next_event.end_time.as_samples(sample_rate)
-- 
2.43.0


From a68f53c027fd99b81bb544f115ca5e4bba8f6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:29 +0000
Subject: [PATCH 08/33] fix: parameter ramps run a frame ahead and overshoot
 their target

---
 src/parameter/realtime_parameter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 382866a..0e9cf05 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -110,6 +110,10 @@ impl RealtimeAudioParameter {
     }
 
     fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        if self.current_change.end_time <= *time {
+            value = self.current_change.value;
+        }
+
         // changes that have already ended all take effect now, in order
         while let Some(next_event) = self.parameter_changes.first() {
             if next_event.end_time > *time {
@@ -134,6 +138,8 @@ impl RealtimeAudioParameter {
                         self.increment = delta / duration;
                         self.coefficient = 1.0;
                         self.current_change = self.parameter_changes.remove(0);
+
+                        return value;
                     }
                 }
                 ValueChangeMethod::Exponential(start_time) => {
@@ -150,13 +156,15 @@ impl RealtimeAudioParameter {
                         self.coefficient = (ratio.ln() / duration).exp();
 
                         self.current_change = self.parameter_changes.remove(0);
+
+                        return value;
                     }
                 }
             };
         }
 
         if self.current_change.end_time <= *time {
-            return self.current_change.value;
+            return value;
         }
 
         (value * self.coefficient) + self.increment
-- 
2.43.0


From 65e8812092b813099c01dc353dafda0d0ba17b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:50 +0000
Subject: [PATCH 09/33] fix: oscillator indexes past its wavetable when a cycle
 ends exactly at a frame

---
 src/effects/oscillator/oscillator_processor.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..3f036af 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
@@ -29,11 +29,7 @@ impl OscillatorProcessor {
         let offset_after = offset.ceil() as usize;
 
         let value_before = self.wavetable[offset_before];
-        let value_after = if offset_after < self.wavetable.len() {
-            self.wavetable[offset_after]
-        } else {
-            0.0
-        };
+        let value_after = self.wavetable[offset_after % self.wavetable.len()];
 
         let weighting = offset - offset.floor();
         interpolate(value_before, value_after, weighting)
-- 
2.43.0


From a5387ebb6685cda05ab3569d43e33666761e807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 10/33] fix: Biquad::shelf_gain() looks up a parameter that
 does not exist

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From 6492022346c3beca52598ce15b6666e00fcc7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 11/33] fix: compressor ignores its knee and is undefined
 exactly at the threshold

---
 src/effects/compressor/compressor_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..7a21c0c 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,7 +80,7 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
         } else if envelope_db > threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
-- 
2.43.0


From 544d83f477c8bb6999bef871825fbfd3f64404f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:04 +0000
Subject: [PATCH 12/33] fix: envelope loops over channels instead of frames

---
 src/effects/envelope/envelope_processor.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..0b54c53 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -44,9 +44,9 @@ impl DspProcessor for EnvelopeProcessor {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
 
-        while position < channel_count {
+        while position < context.input_buffer.frame_count() {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                context.input_buffer.frame_count() - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +71,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From cea272713fb37f75c88bf65c50e7a1fc184ee94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 13/33] fix: unread envelope notifications block the audio
 thread

---
 src/effects/envelope/envelope_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 0b54c53..b076f16 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,8 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            // when nobody reads the notifications, drop them instead of blocking the audio thread
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From 7669febbed101eb1046ffb3a02f3165f6e904075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:19 +0000
Subject: [PATCH 14/33] fix: sampler drops a start while its voices are still
 fading out

---
 src/effects/sampler/sampler_processor.rs | 7 ++++---
 src/effects/sampler/sampler_voice.rs     | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..b530852 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -245,13 +245,14 @@ impl SamplerDspProcess {
 
         self.stop();
 
-        if let Some((index, free_voice)) = self
+        // if every voice is still fading out, take the one that is closest to having finished
+        if let Some((index, voice)) = self
             .voices
             .iter_mut()
             .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
+            .min_by_key(|(_, voice)| voice.fade_out_remaining(&self.fade))
         {
-            free_voice.start_from_position(sample_position);
+            voice.start_from_position(sample_position);
             self.active_voice = Some(index);
         }
     }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..c5fd909 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -29,6 +29,15 @@ impl Voice {
         self.phase == Phase::Stopped
     }
 
+    /// The number of frames until a voice that has been stopped is silent
+    pub fn fade_out_remaining(&self, fade: &Fade) -> usize {
+        match self.phase {
+            Phase::Stopped => 0,
+            Phase::FadingOut(fade_position) => fade.len() - fade_position,
+            Phase::FadingIn(_) | Phase::Playing => usize::MAX,
+        }
+    }
+
     pub fn start_from_position(&mut self, position: usize) {
         self.position = position;
         self.phase = match position {
-- 
2.43.0


From 6aa7faad603a7907c0987cf77cb6d83b11c4ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 15/33] fix: a stopped sampler starts playing again at its next
 loop point

---
 src/effects/sampler/sampler_processor.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index b530852..595a9e9 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -121,12 +121,7 @@ impl SamplerDspProcess {
     }
 
     fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
+        let (loop_start, loop_end) = self.loop_points.expect("Not looping");
 
         let first_loop_length = loop_end - self.start_position_in_sample;
         let subsequent_loop_length = loop_end - loop_start;
@@ -142,6 +137,10 @@ impl SamplerDspProcess {
             .position
             .incremented_by_samples(samples_remaining, self.sample_rate);
 
+        if !self.is_looping() {
+            return end_of_frame - self.position;
+        }
+
         let end_of_sample = self.next_loop_position();
 
         let end_point = if end_of_frame < end_of_sample {
@@ -160,7 +159,7 @@ impl SamplerDspProcess {
     }
 
     fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
+        self.loop_points.is_some() && self.active_voice.is_some()
     }
 
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
@@ -174,15 +173,11 @@ impl SamplerDspProcess {
 
             let render_frame_count = std::cmp::min(render_interval, samples_remaining);
 
-            if render_frame_count == 0 && self.is_looping() {
+            if render_frame_count == 0 {
                 self.finish_sample();
                 continue;
             }
 
-            if render_frame_count == 0 && !self.is_looping() {
-                break;
-            }
-
             self.process_voices(&mut MutableBorrowedAudioBuffer::slice_frames(
                 output_buffer,
                 frame_position,
-- 
2.43.0


From e364bec67e796c6000b7a4b8e9fddefd605391a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:29 +0000
Subject: [PATCH 16/33] fix: changing the loop points of a playing sampler
 loses its position

---
 src/effects/sampler/sampler_processor.rs | 38 ++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 595a9e9..b19adcd 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -217,13 +217,37 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
-        self.loop_points = Some((loop_start, loop_end));
+        self.restart_loop_count();
+
+        // a loop has to be at least one frame long
+        let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+        self.loop_points = (loop_length.round() >= 1.0).then_some((loop_start, loop_end));
     }
 
     fn clear_loop_points(&mut self) {
+        self.restart_loop_count();
         self.loop_points = None
     }
 
+    /// Loops are counted from the current position in the sample
+    ///
+    /// The loop points are about to change, and the loops completed so far were between the old ones
+    fn restart_loop_count(&mut self) {
+        let position_in_sample = self.start_position_in_sample + self.position;
+
+        self.start_position_in_sample = match self.loop_points {
+            Some((loop_start, loop_end)) => {
+                let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+                let looped_frames = loop_length * self.completed_loops as f64;
+                position_in_sample - Timestamp::from_samples(looped_frames, self.sample_rate)
+            }
+            None => position_in_sample,
+        };
+
+        self.position = Timestamp::zero();
+        self.completed_loops = 0;
+    }
+
     fn cancel_all(&mut self) {
         self.stop();
         self.clear_loop_points();
@@ -272,7 +296,17 @@ impl SamplerDspProcess {
     }
 
     fn loop_back(&mut self, from_position: Timestamp) {
-        self.completed_loops += 1;
+        let overshoot = self.position - self.next_loop_position();
+
+        if overshoot.as_samples(self.sample_rate) < 1.0 {
+            self.completed_loops += 1;
+        } else {
+            // already past the end of the loop when it was enabled
+            self.position = Timestamp::zero();
+            self.start_position_in_sample = from_position;
+            self.completed_loops = 0;
+        }
+
         self.assign_voice(from_position);
     }
 
-- 
2.43.0


From c4e9d8d1cc20d48e70f41056a2c5d9e29ddfba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 17/33] fix: a recording that is not collected in time blocks
 or panics the audio thread

---
 src/effects/recorder/recorder_node.rs      |  9 +++------
 src/effects/recorder/recorder_processor.rs | 11 +++++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..ebee261 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,9 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
-
 impl Recorder {
     /// Create a new recorder node
     pub fn new(
@@ -31,9 +28,9 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
-        let (notification_transmitter, notification_receiver) =
-            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
+        // neither side may block the other, and no part of the recording may be dropped
+        let (event_transmitter, event_receiver) = Channel::unbounded();
+        let (notification_transmitter, notification_receiver) = Channel::unbounded();
 
         let processor = Box::new(RecorderProcessor::new(
             sample_rate,
diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..c5c0dc9 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -41,10 +41,13 @@ impl RecorderProcessor {
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
+        let mut next_buffer = self.buffer_pool.remove().unwrap_or_else(|| {
+            OwnedAudioBuffer::new(
+                BUFFER_SIZE,
+                self.current_buffer.channel_count(),
+                self.sample_rate,
+            )
+        });
 
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
-- 
2.43.0


From 421e4a031382d287a1d13211cc29e33dc08263fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:02 +0000
Subject: [PATCH 18/33] fix: mixer and ADSR calls block forever while the
 engine is not processing

---
 src/effects/adsr/adsr_node.rs   | 4 +---
 src/effects/mixer/mixer_node.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -23,8 +23,6 @@ pub struct Mixer {
     event_transmitter: EventTransmitter,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -32,7 +30,7 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(MixerProcessor::new(event_receiver));
 
-- 
2.43.0


From 06254504435afbc82ef8afa561c65d69412d697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:08 +0000
Subject: [PATCH 19/33] fix: removing many nodes in one block stalls the audio
 thread

---
 src/realtime/dsp_graph.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 78c15e2..15a9f2b 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -21,7 +21,6 @@ pub struct DspGraph {
 static MAXIMUM_BUFFER_COUNT: usize = 1024;
 static MAXIMUM_GRAPH_NODE_COUNT: usize = 512;
 static MAXIMUM_GRAPH_EDGE_COUNT: usize = 512;
-static GARBAGE_COLLECTION_CHANNEL_CAPACITY: usize = 512;
 
 impl DspGraph {
     pub fn new(
@@ -29,8 +28,7 @@ impl DspGraph {
         maximum_channel_count: usize,
         sample_rate: usize,
     ) -> Self {
-        let (garbage_collection_tx, garbage_collection_rx) =
-            crossbeam::channel::bounded(GARBAGE_COLLECTION_CHANNEL_CAPACITY);
+        let (garbage_collection_tx, garbage_collection_rx) = crossbeam::channel::unbounded();
         run_garbage_collector(garbage_collection_rx);
 
         Self {
-- 
2.43.0


From 79579cd5fe112a34ffe75cd667fa7b44e4efbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 20/33] fix: BorrowedAudioBuffer::slice_channels swaps its
 channel and frame counts

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From 19d15b0a9e470ec211e47dcd3b9fe96df963b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:35 +0000
Subject: [PATCH 21/33] fix: OwnedAudioBuffer::from_slice only has room for one
 channel

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From dcd236ad1b0792428dde327464ff593d1dc46034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 22/33] fix: interleaved audio with more channels than the
 buffer is scrambled

---
 src/buffer/audio_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..987953b 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,9 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_copy = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_copy {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +43,10 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_copy = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_copy {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 171914bcbf43ce1f30b2d8cff2866f9c273a9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:24 +0000
Subject: [PATCH 23/33] fix: an ADSR note released before its decay ends never
 ends at sustain level zero

---
 src/effects/adsr/adsr_envelope.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..6e067f4 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -21,6 +21,7 @@ pub struct AdsrEnvelope {
 
     decay_time: Duration,
     release_time: Duration,
+    release_level: f64,
 }
 
 const ATTACK_TARGET: f64 = 1.1;
@@ -44,11 +45,12 @@ impl AdsrEnvelope {
             sustain_level,
             release_coefficient: calculate_release_coefficient(
                 release_time,
-                sustain_level,
+                sustain_level.as_linear(),
                 sample_rate,
             ),
             decay_time,
             release_time,
+            release_level: sustain_level.as_linear(),
         }
     }
 
@@ -57,10 +59,20 @@ impl AdsrEnvelope {
     }
 
     pub fn close(&mut self) {
-        self.phase = match self.phase {
-            Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
-        };
+        match self.phase {
+            Phase::Idle | Phase::Release => (),
+            _ => {
+                // the release takes its time from wherever the envelope is
+                self.phase = Phase::Release;
+                self.release_level = self.envelope;
+                self.update_release_coefficient();
+            }
+        }
+    }
+
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient =
+            calculate_release_coefficient(self.release_time, self.release_level, self.sample_rate);
     }
 
     pub fn set_attack_time(&mut self, attack_time: Duration) {
@@ -76,15 +88,12 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
     }
 
     pub fn process(&mut self) -> f64 {
@@ -164,11 +173,11 @@ fn calculate_decay_coefficient(
 
 fn calculate_release_coefficient(
     release_time: Duration,
-    sustain_level: Level,
+    start_level: f64,
     sample_rate: usize,
 ) -> f64 {
     calculate_coefficient(
-        (-RELEASE_TARGET) / (sustain_level.as_linear() - RELEASE_TARGET),
+        (-RELEASE_TARGET) / (start_level - RELEASE_TARGET),
         release_time,
         sample_rate,
     )
-- 
2.43.0


From 4585815ed18588321d5c4467052da7bff7ca5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:11 +0000
Subject: [PATCH 24/33] fix: a soft saturator with threshold one turns full
 scale into NaN

---
 src/effects/waveshaper/waveshaper_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/waveshaper/waveshaper_node.rs b/src/effects/waveshaper/waveshaper_node.rs
index d88f561..64d5de8 100644
--- a/src/effects/waveshaper/waveshaper_node.rs
+++ b/src/effects/waveshaper/waveshaper_node.rs
@@ -43,7 +43,7 @@ impl Waveshaper {
         assert!(threshold <= 1.0);
 
         let shaper = move |input: f32| {
-            if input < threshold {
+            if input <= threshold {
                 input
             } else {
                 threshold
-- 
2.43.0


From e0b79bfc037d30285f6541ca45b93565ad8bfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 25/33] fix: a recorder dropped while its recording stops has
 its buffer freed on the audio thread

---
 src/effects/recorder/recorder_processor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index c5c0dc9..96e1f43 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -54,9 +54,14 @@ impl RecorderProcessor {
 
         std::mem::swap(&mut next_buffer, &mut self.current_buffer);
 
-        let _ = self
+        let result = self
             .notification_transmitter
             .send(RecorderNotification::Data(next_buffer, samples_used));
+
+        // the recorder might have just been dropped, but the buffer mustn't be freed on this thread
+        if let Err(crossbeam::channel::SendError(RecorderNotification::Data(buffer, _))) = result {
+            self.buffer_pool.add(buffer);
+        }
     }
 
     fn process(&mut self, input_buffer: &dyn AudioBuffer, start_frame: usize, frame_count: usize) {
-- 
2.43.0


From 7ff201f3507473c8c8b14ea856e2f376e0e6ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 26/33] fix: interpolate at the right positions when converting
 the sample rate of long buffers

---
 src/buffer/audio_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 987953b..8f96bfc 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -310,7 +310,7 @@ pub trait AudioBuffer {
         destination_location: SampleLocation,
         channel_count: usize,
     ) {
-        let ratio = audio_buffer.sample_rate() as f32 / self.sample_rate() as f32;
+        let ratio = audio_buffer.sample_rate() as f64 / self.sample_rate() as f64;
 
         for channel_offset in 0..channel_count {
             let source_data =
@@ -322,7 +322,7 @@ pub trait AudioBuffer {
                 .iter_mut()
                 .enumerate()
                 .for_each(|(index, sample)| {
-                    let source_index = index as f32 * ratio;
+                    let source_index = index as f64 * ratio;
 
                     let sample_before = (source_index.floor() as usize).min(source_data.len() - 1);
                     let sample_after = (source_index.ceil() as usize).min(source_data.len() - 1);
@@ -334,7 +334,7 @@ pub trait AudioBuffer {
                     let sample_before = source_data[sample_before];
                     let sample_after = source_data[sample_after];
 
-                    let sample_after_amount = source_index - source_index.floor();
+                    let sample_after_amount = (source_index - source_index.floor()) as f32;
                     *sample = (1.0_f32 - sample_after_amount) * sample_before
                         + sample_after_amount * sample_after;
                 });
-- 
2.43.0


From 98f54b1e29cb302958b80e8090de2e381ec973e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 27/33] fix: apply small gains instead of silencing the audio

---
 src/buffer/audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 8f96bfc..5068134 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -250,7 +250,7 @@ pub trait AudioBuffer {
     fn apply_gain(&mut self, gain: &[f32]) {
         debug_assert_eq!(gain.len(), self.frame_count());
 
-        if gain.iter().all(|gain| relative_eq!(*gain, 0.0)) {
+        if gain.iter().all(|gain| *gain == 0.0) {
             self.clear();
             return;
         }
-- 
2.43.0


From 8fddf8885a51654f2097294dca3e9430f1701892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:15 +0000
Subject: [PATCH 28/33] mc hook: export SampleRange in the checked build

---
 src/buffer/mod.rs | 3 +++
 src/lib.rs        | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index c7bf312..f51216d 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -11,3 +11,6 @@ pub(crate) use buffer_pool::BufferPool;
 pub use mutable_borrowed_audio_buffer::MutableBorrowedAudioBuffer;
 pub use owned_audio_buffer::OwnedAudioBuffer;
 pub use sample_location::SampleLocation;
+#[allow(unexpected_cfgs)]
+#[cfg(rawdio_mc)]
+pub use sample_location::SampleRange;
diff --git a/src/lib.rs b/src/lib.rs
index 008235d..3aa0874 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,6 +53,10 @@ pub use buffer::BorrowedAudioBuffer;
 pub use buffer::MutableBorrowedAudioBuffer;
 pub use buffer::OwnedAudioBuffer;
 pub use buffer::SampleLocation;
+// Model-checking hook: the range arguments of `AudioBuffer` cannot be named from outside the crate otherwise.
+#[allow(unexpected_cfgs)]
+#[cfg(rawdio_mc)]
+pub use buffer::SampleRange;
 
 pub use effects::Adsr;
 pub use effects::Biquad;
-- 
2.43.0


From c425238642b1b6ca0d8482cf34103d4cfd571213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 29/33] fix: a gain of zero over a range silences every channel
 of the range

apply_gain_value() returned after the first channel, so the other channels of
the range kept their audio, and it treated gains below 1.2e-7 as zero.
---
 src/buffer/audio_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 5068134..6f5f884 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -271,13 +271,13 @@ pub trait AudioBuffer {
             let channel_data = self.get_channel_data_mut(SampleLocation::new(channel, range.frame));
             let channel_data = &mut channel_data[..range.frame_count];
 
-            if relative_eq!(gain, 0.0) {
+            if gain == 0.0 {
                 channel_data.fill(0.0);
-                return;
+                continue;
             }
 
             if relative_eq!(gain, 1.0) {
-                return;
+                continue;
             }
 
             multiply_by_value(channel_data, gain);
-- 
2.43.0


From bedb28fb40b2d88abb3ccbab0907a48a3017d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 30/33] fix: quiet signals are filtered as loud ones are

A history below 1e-8 was taken for a denormal and cleared. A 20 Hz low-pass at
48 kHz has coefficients of that order, so it never let a signal below -56 dB
through, and distorted those up to -20 dB.
---
 src/effects/biquad/biquad_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index 79b5fe0..ebed93e 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -130,7 +130,7 @@ impl DspProcessor for BiquadProcessor {
 }
 
 fn denormal(sample: f64) -> f64 {
-    let denormal_threshold = 1e-8;
+    let denormal_threshold = 1e-30;
 
     if -denormal_threshold <= sample && sample <= denormal_threshold {
         return 0.0;
-- 
2.43.0


From 23379789a065f773a281265169d060b6b59c522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 31/33] fix: convolution allocates and frees memory on the
 audio thread in every block

---
 src/effects/convolution/convolution_processor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..ad89fb8 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,21 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+
+        let scratch_length = std::cmp::max(
+            fft.get_inplace_scratch_len(),
+            ifft.get_inplace_scratch_len(),
+        );
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            scratch: vec![Complex::zero(); scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -65,7 +73,7 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft.process_with_scratch(input_fft, &mut self.scratch);
         }
     }
 
@@ -85,7 +93,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.scratch);
         }
     }
 
-- 
2.43.0


From 6854af3509f90d26554b9da94df253d40d4a0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 32/33] fix: parameter ramps in very small steps stop after a
 block

---
 src/parameter/realtime_parameter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 0e9cf05..b1598c8 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -76,11 +76,11 @@ impl RealtimeAudioParameter {
     }
 
     fn is_static(&self) -> bool {
-        if !relative_eq!(self.coefficient, 1.0) {
+        if self.coefficient != 1.0 {
             return false;
         }
 
-        if !relative_eq!(self.increment, 0.0) {
+        if self.increment != 0.0 {
             return false;
         }
 
-- 
2.43.0


From d3cc05a6bf6c191f87b484f2ad2cbfabc5ba33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 33/33] fix: a recorder allocates on the audio thread when many
 buffers are returned at once

---
 src/effects/recorder/recorder_processor.rs | 3 ++-
 src/effects/utility/event_processor.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index 96e1f43..0ec700f 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -14,8 +14,9 @@ pub struct RecorderProcessor {
     recording: bool,
 }
 
-const MAX_PENDING_EVENTS: usize = 16;
 const BUFFER_COUNT: usize = 32;
+// buffers are returned as events, possibly all of them at once
+const MAX_PENDING_EVENTS: usize = 16 + BUFFER_COUNT;
 const BUFFER_SIZE: usize = 4096;
 
 impl RecorderProcessor {
diff --git a/src/effects/utility/event_processor.rs b/src/effects/utility/event_processor.rs
index 2b722a4..d37de9b 100644
--- a/src/effects/utility/event_processor.rs
+++ b/src/effects/utility/event_processor.rs
@@ -44,8 +44,9 @@ where
         }
 
         if sort_required {
+            // in place, as a stable sort would allocate
             self.pending_events
-                .sort_by(|a, b| match a.get_time().cmp(&b.get_time()) {
+                .sort_unstable_by(|a, b| match a.get_time().cmp(&b.get_time()) {
                     std::cmp::Ordering::Equal => a.sequence_number().cmp(&b.sequence_number()),
                     comparison => comparison,
                 });
-- 
2.43.0

