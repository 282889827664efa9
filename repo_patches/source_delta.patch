From d9bd2e00063c8815d6447e4d2fd21f6667e50801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 01/23] fix: count every connection between two nodes when
 sorting the graph

Two connections between the same nodes were counted twice as dependencies but
only released once, so the sort reported a cycle and panicked.
---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 10 ++++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..0bb28eb 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -108,11 +108,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..e399247 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,10 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From 679ea250fc483626597f8a6885b7ee3bf001af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 02/23] fix: remove the connections of a node that is dropped
 while connected

Dropping a node that was still connected to another one made the next process
call panic.
---
 src/realtime/graph.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 0bb28eb..8f14387 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -75,21 +75,29 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
     }
 
     pub fn remove_edge(&mut self, from_node_id: Id, to_node_id: Id) -> Option<EdgeData> {
-        let id = self.find_edge_between_nodes(from_node_id, to_node_id);
+        let id = self.find_edge_between_nodes(from_node_id, to_node_id)?;
+        self.remove_edge_with_id(id)
+    }
 
-        if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        let (_, edge) = self.edges.remove_entry(&id)?;
 
-                return Some(edge.edge_data);
-            }
-        }
+        replace_connections(self, Direction::Outgoing, id, edge.next_out);
+        replace_connections(self, Direction::Incoming, id, edge.next_in);
 
-        None
+        Some(edge.edge_data)
+    }
+
+    fn first_connected_edge_id(&self, node_id: Id) -> Option<Id> {
+        let node = self.nodes.get(&node_id)?;
+        node.incoming.or(node.outgoing)
     }
 
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        while let Some(edge_id) = self.first_connected_edge_id(id) {
+            self.remove_edge_with_id(edge_id);
+        }
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
-- 
2.43.0


From 305ea17b3de2ac79b6808ed4812ab1495aeca6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 03/23] fix: disconnect all connections between two nodes

With several connections between the same two nodes, disconnecting removed an
arbitrary one of them and the others kept sounding.
---
 src/realtime/dsp_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..59ae932 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,11 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From 49ba567db874940c654edbd396591689478728db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 04/23] fix: only pass on a node's output buffer when it is
 exactly the input

A node with a single incoming connection was given all the output channels of
its source, also those outside the connection, and never the system input.
---
 src/realtime/dsp_graph.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 59ae932..b5195ca 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -205,7 +205,12 @@ fn process_dsp(
 
     let mut output_buffer = get_buffer_with_endpoint(&output_endpoint, buffer_pools);
 
-    let (input_buffer, input_endpoint) = prepare_input(buffer_pools, graph, dsp_id, frame_count);
+    let input_count = graph
+        .get_node_mut(dsp_id)
+        .map_or(0, |dsp| dsp.input_count());
+
+    let (input_buffer, input_endpoint) =
+        prepare_input(buffer_pools, graph, dsp_id, input_count, frame_count);
 
     if let Some(dsp) = graph.get_node_mut(dsp_id) {
         let mut output_slice = MutableBorrowedAudioBuffer::slice_channels_and_frames(
@@ -364,6 +369,7 @@ fn prepare_single_input_node(
     buffer_pools: &mut BufferPools,
     graph: &Graph<Box<Dsp>, Connection>,
     dsp_id: Id,
+    input_count: usize,
     frame_count: usize,
 ) -> (OwnedAudioBuffer, Endpoint) {
     let edge_id = graph
@@ -373,7 +379,13 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    if edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+        && edge.edge_data.channel_count >= input_count
+        && !buffer_pools
+            .assigned
+            .has(&Endpoint::new(dsp_id, EndpointType::Input))
+    {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
@@ -389,11 +401,12 @@ fn prepare_input(
     buffer_pools: &mut BufferPools,
     graph: &Graph<Box<Dsp>, Connection>,
     dsp_id: Id,
+    input_count: usize,
     frame_count: usize,
 ) -> (OwnedAudioBuffer, Endpoint) {
     match graph.connection_count(dsp_id, Direction::Incoming) {
         0 => prepare_zero_input_node(buffer_pools, dsp_id),
-        1 => prepare_single_input_node(buffer_pools, graph, dsp_id, frame_count),
+        1 => prepare_single_input_node(buffer_pools, graph, dsp_id, input_count, frame_count),
         _ => prepare_n_input_node(buffer_pools, graph, dsp_id, frame_count),
     }
 }
-- 
2.43.0


From 0666ba772e87a529c53e9c095543bdea50644543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 05/23] fix: mix connections with the system input

The first connection overwrote the system input on a node connected to both,
and channels of the system input outside the connection were kept.
---
 src/realtime/dsp_graph.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index b5195ca..cf102c4 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -297,8 +297,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -312,10 +310,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
-- 
2.43.0


From 569a77bb535ab1e9bdd767219433b4f70d380be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 06/23] fix: keep channel and frame count apart when slicing
 channels

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From 044b8496a45004cbaa3cc2a9c2efe7fbd26b6ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 07/23] fix: make room for every channel of a buffer made from
 a slice

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From c1e8a50d449f2583477ee689878bf46891530e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 08/23] fix: interleave with the channel count of the
 interleaved data

---
 src/buffer/audio_buffer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..dac2274 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,8 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +42,9 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 7d2f2c46c7e51e8915d8546abac6c9a20a8cb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 09/23] fix: never convert a level to less than minus infinity
 decibels

---
 src/utility/level.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/level.rs b/src/utility/level.rs
index 53168c5..9920474 100644
--- a/src/utility/level.rs
+++ b/src/utility/level.rs
@@ -38,7 +38,7 @@ impl Level {
         if self.linear <= 1e-9 {
             MINUS_INFINITY_DECIBELS
         } else {
-            20.0 * self.linear.log10()
+            (20.0 * self.linear.log10()).max(MINUS_INFINITY_DECIBELS)
         }
     }
 
-- 
2.43.0


From dbc1f3b7c06af73054e06b4c25f7fd3bd111d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 10/23] fix: cancel the changes ending after the given time,
 not those before

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..9b0b686 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -173,7 +173,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 253097930ca6a7daa0a1e54677e69572c94b966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 11/23] fix: apply every parameter change that is due at a
 sample

---
 src/parameter/realtime_parameter.rs | 55 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 9b0b686..045d577 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -109,42 +109,49 @@ impl RealtimeAudioParameter {
         self.set_value(value);
     }
 
-    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, value: f64) -> f64 {
-        if let Some(next_event) = self.parameter_changes.first() {
+    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        while let Some(next_event) = self.parameter_changes.first() {
             match next_event.method {
                 ValueChangeMethod::Immediate => {
-                    if next_event.end_time <= *time {
-                        self.increment = 0.0;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
+                    if next_event.end_time > *time {
+                        break;
                     }
+
+                    self.increment = 0.0;
+                    self.coefficient = 1.0;
+                    self.current_change = self.parameter_changes.remove(0);
+                    value = self.current_change.value;
                 }
                 ValueChangeMethod::Linear(start_time) => {
-                    if *time >= start_time {
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
-                        let delta = next_event.value - value;
-
-                        self.increment = delta / duration;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
+                    if start_time > *time {
+                        break;
                     }
+
+                    let duration =
+                        next_event.end_time.as_samples(sample_rate) - time.as_samples(sample_rate);
+                    let delta = next_event.value - value;
+
+                    self.increment = delta / duration;
+                    self.coefficient = 1.0;
+                    self.current_change = self.parameter_changes.remove(0);
                 }
                 ValueChangeMethod::Exponential(start_time) => {
-                    if *time >= start_time {
-                        debug_assert_ne!(next_event.value, 0.0);
-                        debug_assert_ne!(value, 0.0);
+                    if start_time > *time {
+                        break;
+                    }
 
-                        let ratio = next_event.value / value;
+                    debug_assert_ne!(next_event.value, 0.0);
+                    debug_assert_ne!(value, 0.0);
 
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
+                    let ratio = next_event.value / value;
 
-                        self.increment = 0.0;
-                        self.coefficient = (ratio.ln() / duration).exp();
+                    let duration =
+                        next_event.end_time.as_samples(sample_rate) - time.as_samples(sample_rate);
 
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
+                    self.increment = 0.0;
+                    self.coefficient = (ratio.ln() / duration).exp();
+
+                    self.current_change = self.parameter_changes.remove(0);
                 }
             };
         }
-- 
2.43.0


From 7287d12ce008c69e4021d0a1d2199c1ad68c5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 12/23] fix: start parameter ramps at the current value and
 keep them from overshooting

---
 src/parameter/realtime_parameter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 045d577..5630a76 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -110,7 +110,13 @@ impl RealtimeAudioParameter {
     }
 
     fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        let mut ramp_started = false;
+
         while let Some(next_event) = self.parameter_changes.first() {
+            if self.current_change.end_time <= *time {
+                value = self.current_change.value;
+            }
+
             match next_event.method {
                 ValueChangeMethod::Immediate => {
                     if next_event.end_time > *time {
@@ -120,7 +126,6 @@ impl RealtimeAudioParameter {
                     self.increment = 0.0;
                     self.coefficient = 1.0;
                     self.current_change = self.parameter_changes.remove(0);
-                    value = self.current_change.value;
                 }
                 ValueChangeMethod::Linear(start_time) => {
                     if start_time > *time {
@@ -134,6 +139,7 @@ impl RealtimeAudioParameter {
                     self.increment = delta / duration;
                     self.coefficient = 1.0;
                     self.current_change = self.parameter_changes.remove(0);
+                    ramp_started = true;
                 }
                 ValueChangeMethod::Exponential(start_time) => {
                     if start_time > *time {
@@ -152,6 +158,7 @@ impl RealtimeAudioParameter {
                     self.coefficient = (ratio.ln() / duration).exp();
 
                     self.current_change = self.parameter_changes.remove(0);
+                    ramp_started = true;
                 }
             };
         }
@@ -160,6 +167,10 @@ impl RealtimeAudioParameter {
             return self.current_change.value;
         }
 
+        if ramp_started {
+            return value;
+        }
+
         (value * self.coefficient) + self.increment
     }
 
-- 
2.43.0


From 29e49390228d75ef4345a89ce570973f7d54fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 13/23] fix: don't block when more mixer levels are set than
 its event channel holds

---
 src/effects/mixer/mixer_node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..66d978e 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -1,7 +1,9 @@
 use crate::{commands::Id, effects::Channel, graph::DspParameters, prelude::*};
 
 use super::{
-    mixer_event::EventTransmitter, mixer_matrix::MixerMatrix, mixer_processor::MixerProcessor,
+    mixer_event::{EventReceiver, EventTransmitter},
+    mixer_matrix::MixerMatrix,
+    mixer_processor::MixerProcessor,
 };
 
 /// A node that mixes between its input and output channels
@@ -21,6 +23,7 @@ pub struct Mixer {
     /// The matrix for how the inputs will be mixed to the outputs
     pub gain_matrix: MixerMatrix,
     event_transmitter: EventTransmitter,
+    event_receiver: EventReceiver,
 }
 
 static EVENT_CHANNEL_CAPACITY: usize = 32;
@@ -34,7 +37,7 @@ impl Mixer {
 
         let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
 
-        let processor = Box::new(MixerProcessor::new(event_receiver));
+        let processor = Box::new(MixerProcessor::new(event_receiver.clone()));
 
         Self {
             node: GraphNode::new(
@@ -47,6 +50,7 @@ impl Mixer {
             ),
             gain_matrix,
             event_transmitter,
+            event_receiver,
         }
     }
 
@@ -55,6 +59,12 @@ impl Mixer {
         self.gain_matrix
             .set_level(input_channel, output_channel, level);
 
+        // Every event carries the whole matrix, so the oldest one can make way
+        // if the processor hasn't received them yet (e.g. before it is started)
+        while self.event_transmitter.is_full() {
+            let _ = self.event_receiver.try_recv();
+        }
+
         let _ = self.event_transmitter.send(self.gain_matrix.clone());
     }
 
-- 
2.43.0


From c67fc98104b376150478b48b487efcaaa6065dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 14/23] fix: wrap the phase and the interpolation at the end of
 an oscillator's wavetable

---
 src/effects/oscillator/oscillator_processor.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..3f036af 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
@@ -29,11 +29,7 @@ impl OscillatorProcessor {
         let offset_after = offset.ceil() as usize;
 
         let value_before = self.wavetable[offset_before];
-        let value_after = if offset_after < self.wavetable.len() {
-            self.wavetable[offset_after]
-        } else {
-            0.0
-        };
+        let value_after = self.wavetable[offset_after % self.wavetable.len()];
 
         let weighting = offset - offset.floor();
         interpolate(value_before, value_after, weighting)
-- 
2.43.0


From a6bb60445d47a1a68939809e514f61f7cbc1f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 15/23] fix: release an ADSR envelope from its current level

---
 src/effects/adsr/adsr_envelope.rs | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..675a1d6 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -42,11 +42,7 @@ impl AdsrEnvelope {
             attack_coefficient: calculate_attack_coefficient(attack_time, sample_rate),
             decay_coefficient: calculate_decay_coefficient(decay_time, sustain_level, sample_rate),
             sustain_level,
-            release_coefficient: calculate_release_coefficient(
-                release_time,
-                sustain_level,
-                sample_rate,
-            ),
+            release_coefficient: 0.0,
             decay_time,
             release_time,
         }
@@ -57,10 +53,12 @@ impl AdsrEnvelope {
     }
 
     pub fn close(&mut self) {
-        self.phase = match self.phase {
-            Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
-        };
+        if matches!(self.phase, Phase::Idle | Phase::Release) {
+            return;
+        }
+
+        self.update_release_coefficient();
+        self.phase = Phase::Release;
     }
 
     pub fn set_attack_time(&mut self, attack_time: Duration) {
@@ -76,15 +74,19 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
+    }
+
+    /// The release starts from the current value of the envelope, which is only
+    /// the sustain level if the note was held for long enough
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient =
+            calculate_release_coefficient(self.release_time, self.envelope, self.sample_rate);
     }
 
     pub fn process(&mut self) -> f64 {
@@ -164,11 +166,11 @@ fn calculate_decay_coefficient(
 
 fn calculate_release_coefficient(
     release_time: Duration,
-    sustain_level: Level,
+    initial_level: f64,
     sample_rate: usize,
 ) -> f64 {
     calculate_coefficient(
-        (-RELEASE_TARGET) / (sustain_level.as_linear() - RELEASE_TARGET),
+        (-RELEASE_TARGET) / (initial_level - RELEASE_TARGET),
         release_time,
         sample_rate,
     )
-- 
2.43.0


From 9ddf0d3286037d1a64ccdfcbc924ea573e1f792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 16/23] fix: report the envelope of every part of a block, at
 the requested rate

---
 src/effects/envelope/envelope_processor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..8d30a55 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -43,10 +43,11 @@ impl DspProcessor for EnvelopeProcessor {
     fn process_audio(&mut self, context: &mut crate::ProcessContext) {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
+        let total_frame_count = context.input_buffer.frame_count();
 
-        while position < channel_count {
+        while position < total_frame_count {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                total_frame_count - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +72,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From d95bf34c028e3c005a19789bfe9b4087eec7ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 17/23] fix: don't block processing when envelope notifications
 aren't collected

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 8d30a55..d7f5bc1 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From 2af4bb2b21ec728cda527a444a9089cae8f7e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 18/23] fix: apply the compressor's knee on both sides of the
 threshold

---
 src/effects/compressor/compressor_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..5198d1b 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,9 +80,9 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
-        } else if envelope_db > threshold + half_knee {
+        } else if envelope_db >= threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
         } else {
             let excess = envelope_db - threshold + half_knee;
-- 
2.43.0


From 1d20dffc3ac22e55a268bf487eb24a949ac3288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 19/23] fix: look up the shelf gain of a biquad filter by its
 name

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From e6906b91c3c5c48927a56c80741a1531f0a5e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:09 +0000
Subject: [PATCH 20/23] fix: start a sampler voice even if both are still
 sounding

---
 src/effects/sampler/sampler_processor.rs | 7 ++++---
 src/effects/sampler/sampler_voice.rs     | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..d23da70 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -245,13 +245,14 @@ impl SamplerDspProcess {
 
         self.stop();
 
-        if let Some((index, free_voice)) = self
+        // If there is no free voice, use the one that is closest to silence
+        if let Some((index, voice)) = self
             .voices
             .iter_mut()
             .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
+            .max_by_key(|(_, voice)| voice.fade_out_position())
         {
-            free_voice.start_from_position(sample_position);
+            voice.start_from_position(sample_position);
             self.active_voice = Some(index);
         }
     }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..e640325 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -29,6 +29,15 @@ impl Voice {
         self.phase == Phase::Stopped
     }
 
+    /// How far the voice has faded out
+    pub fn fade_out_position(&self) -> usize {
+        match self.phase {
+            Phase::Stopped => usize::MAX,
+            Phase::FadingOut(fade_position) => fade_position,
+            Phase::FadingIn(_) | Phase::Playing => 0,
+        }
+    }
+
     pub fn start_from_position(&mut self, position: usize) {
         self.position = position;
         self.phase = match position {
-- 
2.43.0


From 8027180ec457428f8a23446801fd4976e614a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:25 +0000
Subject: [PATCH 21/23] fix: keep track of the sampler's position in the
 sample, whatever happens to its loop points

---
 src/effects/sampler/sampler_processor.rs | 82 ++++++++++--------------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index d23da70..425ab95 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -27,7 +27,6 @@ pub struct SamplerDspProcess {
     loop_points: Option<(Timestamp, Timestamp)>,
 
     position: Timestamp,
-    start_position_in_sample: Timestamp,
     completed_loops: usize,
 }
 
@@ -105,7 +104,6 @@ impl SamplerDspProcess {
             ),
             loop_points: None,
             position: Timestamp::zero(),
-            start_position_in_sample: Timestamp::zero(),
             completed_loops: 0,
             sample_rate,
         }
@@ -120,69 +118,52 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
-
-        let first_loop_length = loop_end - self.start_position_in_sample;
-        let subsequent_loop_length = loop_end - loop_start;
-
-        let sample_position = first_loop_length.as_samples(self.sample_rate)
-            + subsequent_loop_length.as_samples(self.sample_rate) * self.completed_loops as f64;
-
-        Timestamp::from_samples(sample_position, self.sample_rate)
+    /// The loop points, unless there is no whole sample between them
+    fn get_loop_points(&self) -> Option<(Timestamp, Timestamp)> {
+        self.loop_points.filter(|(loop_start, loop_end)| {
+            (*loop_end - *loop_start).as_samples(self.sample_rate) >= 1.0
+        })
     }
 
-    fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
-        let end_of_frame = self
-            .position
-            .incremented_by_samples(samples_remaining, self.sample_rate);
-
-        let end_of_sample = self.next_loop_position();
+    fn end_of_sample(&self) -> Timestamp {
+        Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
+    }
 
-        let end_point = if end_of_frame < end_of_sample {
-            end_of_frame
-        } else {
-            end_of_sample
+    /// The number of frames until the position is the end of the loop or of the sample
+    fn get_render_frame_count(&self) -> usize {
+        let end_point = match self.get_loop_points() {
+            Some((_, loop_end)) => loop_end,
+            None => self.end_of_sample(),
         };
 
-        end_point - self.position
+        (end_point - self.position)
+            .as_samples(self.sample_rate)
+            .round() as usize
     }
 
     fn finish_sample(&mut self) {
-        if let Some((loop_start, _)) = self.loop_points {
-            self.loop_back(loop_start);
+        match self.get_loop_points() {
+            Some((loop_start, loop_end)) => self.loop_back(loop_start, loop_end),
+            None => self.stop(),
         }
     }
 
-    fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
-    }
-
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
         let mut frame_position = 0;
 
         while frame_position < output_buffer.frame_count() {
             let samples_remaining = output_buffer.frame_count() - frame_position;
 
-            let render_interval = self.get_render_interval(samples_remaining);
-            let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
+            let render_frame_count = match self.active_voice {
+                Some(_) => std::cmp::min(self.get_render_frame_count(), samples_remaining),
+                None => samples_remaining,
+            };
 
-            let render_frame_count = std::cmp::min(render_interval, samples_remaining);
-
-            if render_frame_count == 0 && self.is_looping() {
+            if render_frame_count == 0 {
                 self.finish_sample();
                 continue;
             }
 
-            if render_frame_count == 0 && !self.is_looping() {
-                break;
-            }
-
             self.process_voices(&mut MutableBorrowedAudioBuffer::slice_frames(
                 output_buffer,
                 frame_position,
@@ -270,15 +251,18 @@ impl SamplerDspProcess {
     }
 
     fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
-        self.assign_voice(from_position + delay);
+        self.position = from_position + delay;
         self.completed_loops = 0;
-        self.position = delay;
-        self.start_position_in_sample = from_position;
+        self.assign_voice(self.position);
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
-        self.completed_loops += 1;
-        self.assign_voice(from_position);
+    fn loop_back(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        while self.get_render_frame_count() == 0 {
+            self.position = self.position - (loop_end - loop_start);
+            self.completed_loops += 1;
+        }
+
+        self.assign_voice(self.position);
     }
 
     fn stop(&mut self) {
-- 
2.43.0


From f9c87893f947f06c6756b01581e732ac6250d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:25 +0000
Subject: [PATCH 22/23] fix: fade a sampler voice out from the level it has
 faded in to

---
 src/effects/sampler/sampler_processor.rs | 3 ++-
 src/effects/sampler/sampler_voice.rs     | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 425ab95..d28b67b 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -266,7 +266,8 @@ impl SamplerDspProcess {
     }
 
     fn stop(&mut self) {
-        self.voices.iter_mut().for_each(|voice| voice.stop());
+        let fade = &self.fade;
+        self.voices.iter_mut().for_each(|voice| voice.stop(fade));
         self.active_voice = None
     }
 }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index e640325..9bb56c7 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -50,10 +50,13 @@ impl Voice {
         self.position
     }
 
-    pub fn stop(&mut self) {
+    pub fn stop(&mut self, fade: &Fade) {
         match self.phase {
             Phase::Stopped => (),
-            Phase::FadingIn(_) => self.phase = Phase::FadingOut(0),
+            // Fade out from the level that has been reached so far
+            Phase::FadingIn(fade_position) => {
+                self.phase = Phase::FadingOut(fade.len() - fade_position)
+            }
             Phase::Playing => self.phase = Phase::FadingOut(0),
             Phase::FadingOut(_) => (),
         }
-- 
2.43.0


From ebd4ce69d41dcfe00fcf22a92edadf4a9d16a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:36 +0000
Subject: [PATCH 23/23] fix: keep the scratch memory of the convolution's
 transforms between calls

---
 src/effects/convolution/convolution_processor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..0822132 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    fft_scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,20 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+
+        let fft_scratch_length = fft
+            .get_inplace_scratch_len()
+            .max(ifft.get_inplace_scratch_len());
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            fft_scratch: vec![Complex::zero(); fft_scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -65,7 +72,8 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft
+                .process_with_scratch(input_fft, &mut self.fft_scratch);
         }
     }
 
@@ -85,7 +93,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.fft_scratch);
         }
     }
 
-- 
2.43.0

