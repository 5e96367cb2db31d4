N="src/net.rs"; V="src/vertex.rs"; R="src/realnet.rs"; S="src/sequencer.rs"; L="src/slot.rs"; Q="src/realseq.rs"
def m(id,prop,*edits): return dict(id=id,property=prop,edits=list(edits))
BUGS=[
m("net-remove-edges","P06",(N,["fn remove_2"],"for vertex in 0..self.size() - 1 {\n                for channel","for vertex in 0..node_index {\n                for channel")),
m("net-setoutsrc-noinval","P06",(N,["pub fn set_output_source"],"            Source::Zero => Port::Zero,\n        };\n        self.invalidate_order();","            Source::Zero => Port::Zero,\n        };")),
m("net-setsrc-noinval","P06",(N,["pub fn set_source"],"            Source::Zero => Port::Zero,\n        };\n        self.invalidate_order();","            Source::Zero => Port::Zero,\n        };\n        if source != Source::Zero { self.invalidate_order(); }")),
m("net-disconnect-noinval","P06",(N,["pub fn disconnect("],"self.vertex[node_index].source[port].source = Port::Zero;\n        self.invalidate_order();","self.vertex[node_index].source[port].source = Port::Zero;\n        if self.vertex[node_index].source_vertex.is_none() { self.invalidate_order(); }")),
m("net-srcvertex-check","P06",(V,["fn update_source_vertex"],"source_node != node || source_port + i != port","source_node != node || source_port > port")),
m("net-srcvertex-clear","P06",(V,["fn update_source_vertex"],"        self.source_vertex = None;\n        if self.inputs() == 0 {\n            return;\n        }","        if self.inputs() == 0 {\n            self.source_vertex = None;\n            return;\n        }")),
m("net-chain-globals","P06",(N,["pub fn chain"],"if self.size() == 1 {","if self.size() <= 1 && self.output_edge.iter().all(|e| e.source == Port::Zero) {")),
m("net-pipe-out-modulo","P06",(N,["pub fn pipe_output"],"channel % node_outputs","min(channel, node_outputs - 1)")),
m("net-pipeall-modulo","P06",(N,["pub fn pipe_all"],"channel % outputs","min(channel, outputs - 1)")),
m("net-thru-less","P06",(N,["pub fn thru"],"for i in outputs..net.inputs() {","for i in outputs..net.inputs() - 1 + (outputs & 1) {")),
m("net-branch-global","P06",(N,["pub fn branch"],"net1.output_edge[i] = edge(Port::Global(source_port), Port::Global(i));","net1.output_edge[i] = edge(Port::Global(i - output_offset), Port::Global(i));")),
m("net-pipe-passthru","P06",(N,["pub fn pipe(mut"],"edge(output_edge1[source_port].source, Port::Global(output_port));","edge(Port::Global(source_port), Port::Global(output_port));")),
m("net-disambig","P06",(N,["fn disambiguate_ids"],"self.node_index.remove(&id);\n","")),
m("net-binary-zero","P06",(N,["for i in 0..output2.len() {"],"net1.connect_index(source_node + offset, source_port, add_offset + i, 1);","net1.connect_index(source_node + offset, source_port, add_offset + i % output1.len(), 1);")),
m("net-cycle-err","P06",(N,["fn determine_order(&mut self)"],"self.error = None;","if self.error.is_none() { self.error = None; }")),
m("net-order-multi-edge","P06",(N,["fn propagate"],"net.vertex[j].unplugged -= 1;\n                    if net.vertex[j].unplugged == 0 {","net.vertex[j].unplugged -= 1;\n                    if !net.vertex[j].ordered && net.vertex[j].unplugged <= 1 {")),
m("net-replace-ids","P06",(N,["pub fn remove_2","fn remove_2"],"self.node_index\n                .insert(self.vertex[node_index].id, node_index);","") ),
m("net-crossfade-index","P07",(N,["pub fn commit"],"if let Some(&index) = self.node_index.get(&edit.id) {","if self.node_index.contains_key(&edit.id) {\n                let index = edit.index;")),
m("net-commit-order","P07",(N,["pub fn commit"],"        if !self.is_ordered() {\n            self.determine_order();\n        }\n","")),
m("net-commit-noalloc","P11",(N,["pub fn commit"],"        net.allocate();\n","")),
m("net-backend-noalloc","P11",(N,["pub fn backend"],"        net.allocate();\n","")),
m("net-migrate-lt","P07",(N,"new.vertex[new_index].changed <= self.revision","new.vertex[new_index].changed < self.revision")),
m("net-migrate-phase","P07",(N,["fn migrate"],"new.vertex[new_index].fade_phase = self.vertex[index].fade_phase;","")),
m("net-migrate-latest","P07",(N,["fn migrate"],"""                    core::mem::swap(
                        &mut self.vertex[index].latest,
                        &mut new.vertex[new_index].latest,
                    );
""","")),
m("net-replace-changed","P07",(N,["pub fn replace"],"self.vertex[node_index].changed = self.revision;","")),
m("net-reset-changed","P07",(N,["fn reset(&mut self)"],"vertex.changed = self.revision;","")),
m("net-return-drop","P11",(R,["fn handle_messages"],"""                    if self
                        .sender
                        .as_ref()
                        .unwrap()
                        .try_send(NetReturn::Net(net))
                        .is_ok()
                    {}""","                    drop(net);")),
m("net-settings-last","P07",(R,["fn handle_messages"],"self.net.set(setting);","self.net.set(setting);\n                    break;")),
m("net-frontend-sr","P07",(N,["fn set_sample_rate"],"vertex.changed = self.revision;","if !self.front.is_some() { vertex.changed = self.revision; }")),
m("vertex-tickfade","P07",(V,["pub fn tick"],"let f = self.next.fade.at(self.fade_phase);","let f = 1.0 - f;")),
m("vertex-process-chan","P07",(V,["for channel in 0..self.outputs() {"],"for (x, y) in self.output.channel_f32_mut(channel)[n..size]","for (x, y) in self.output.channel_f32_mut(channel)[n..simd_items(n) * SIMD_N]")),
m("vertex-next-fadetime","P07",(V,["fn next_phase"],"self.next.fade_time = self.latest.fade_time;","")),
m("vertex-next-fade","P07",(V,["fn next_phase"],"self.next.fade = self.latest.fade.clone();","")),
m("vertex-next-phase0","P07",(V,["fn next_phase"],"self.fade_phase = 0.0;","self.fade_phase -= 1.0;")),
m("vertex-latest-drop","P11",(V,["pub fn enqueue"],"if sender.try_send(NetReturn::Unit(latest)).is_ok() {}","let _ = (sender, latest);")),
m("vertex-return-drop","P11",(V,["fn next_phase"],"if sender.try_send(NetReturn::Unit(next)).is_ok() {}","let _ = sender; drop(next);")),
m("vertex-enqueue-phase","P07",(V,["pub fn enqueue"],"            self.fade_phase = 0.0;\n","")),
# sequencer
m("seq-fadein-delerp","P08",(S,["fn fade_in("],"time + start_index as f64 * sample_duration,","time,")),
m("seq-fadein-end","P08",(S,["fn fade_in("],"ceil((fade_end_time - time) / sample_duration) as usize","floor((fade_end_time - time) / sample_duration) as usize")),
m("seq-fadeout-n","P08",(S,["fn fade_out("],"let fade_i = max(fade_i, start_index);","")),
m("seq-simd-tail","P08",(S,["fn process"],"for j in end_index & !SIMD_M..end_index {","for j in (end_index & !SIMD_M) + 1..end_index {")),
m("seq-map-swap","P08",(S,["fn process"],"""                if i + 1 < self.active.len() {
                    self.active_map
                        .insert(self.active[self.active.len() - 1].id, i);
                }
""","")),
m("seq-map-swap-tick","P08",(S,["fn tick"],"""                if i + 1 < self.active.len() {
                    self.active_map
                        .insert(self.active[self.active.len() - 1].id, i);
                }
""","")),
m("seq-heap-order","P08",(S,["impl Ord for Event"],"other.start_time.total_cmp(&self.start_time)","self.start_time.total_cmp(&other.start_time)")),
m("seq-edit-removed","P08",(S,["fn ready_to_active"],"self.edit_map.remove(&ready.id);","")),
m("seq-edit-fadeout","P08",(S,["fn ready_to_active"],"ready.fade_out = edit.fade_out;","ready.fade_out = max(ready.fade_out, edit.fade_out);")),
m("seq-reset-thresh","P08",(S,["fn reset(&mut self)"],"self.active_threshold = -f64::INFINITY;","")),
m("seq-reset-map","P08",(S,["fn reset(&mut self)"],"                self.ready.push(active);\n            }\n            self.active_map.clear();","                self.ready.push(active);\n            }")),
m("seq-reset-past","P02",(S,["fn reset(&mut self)"],"while let Some(past) = self.past.pop() {","if let Some(past) = self.past.pop() {")),
m("seq-sr-past","P04",(S,["fn set_sample_rate"],"            while let Some(past) = self.past.pop() {\n                self.active.push(past);\n            }\n","")),
m("seq-sr-map","P08",(S,["fn set_sample_rate"],"            self.active_map.clear();\n","")),
m("seq-tick-fade","P08",(S,["fn tick"],"if fade_out > 0.0 {","if fade_out > 0.0 && self.active[i].fade_in <= 0.0 {")),
m("seq-pushrel-active","P08",(S,["fn push_relative_event"],"self.active_map.insert(event.id, self.active.len());","")),
m("seq-edit-active","P08",(S,["pub fn edit("],"self.active[i].end_time = end_time;","self.active[i].end_time = max(self.active[i].end_time, end_time);")),
m("seq-end-index","P08",(S,["fn process"],"let end_index = if self.active[i].end_time >= end_time {\n                    size\n                } else {\n                    round(","let end_index = if self.active[i].end_time >= end_time {\n                    size\n                } else {\n                    floor(")),
m("seq-start-index","P08",(S,["fn process"],"round((self.active[i].start_time - self.time) * self.sample_rate) as usize","ceil((self.active[i].start_time - self.time) * self.sample_rate) as usize")),
m("seq-past-alloc","P11",(Q,["fn process"],"self.send_back_past();","let _ = self.send_back_past as fn(&mut Self);") ),
m("seqb-reset-ready","P09",(Q,["fn reset_sequencer"],"while let Some(event) = self.sequencer.get_ready_event() {","if let Some(event) = self.sequencer.get_ready_event() {")),
m("seqb-replay-back","P09",(Q,["fn process"],"if !self.sequencer.replay_events() {\n            self.send_back_past();","if !self.sequencer.replay_events() || size < 8 {\n            self.send_back_past();")),
m("seqb-one-message","P09",(Q,["fn handle_messages"],"self.sequencer.edit(id, edit.end_time, edit.fade_out);","self.sequencer.edit(id, edit.end_time, edit.fade_out);\n                    break;")),
m("seqb-clone","P03",(S,["impl Clone for Sequencer"],"edit_map: self.edit_map.clone(),","edit_map: HashMap::with_capacity(DEFAULT_CAPACITY),")),
m("seqb-clone-map","P03",(S,["impl Clone for Sequencer"],"active_map: self.active_map.clone(),","active_map: HashMap::with_capacity(DEFAULT_CAPACITY),")),
m("seqb-clone-thresh","P03",(S,["impl Clone for Sequencer"],"active_threshold: self.active_threshold,","active_threshold: -f64::INFINITY,")),
# slot
m("slot-latest-fade","P10",(L,["fn next_phase"],"self.fade = self.latest_fade.clone();","")),
m("slot-reset-order","P10",(L,["fn reset"],"if let Some(mut latest) = self.latest.take() {","if let (Some(mut latest), None) = (self.latest.take(), &self.next) {")),
m("slot-clone-phase","P03",(L,["impl Clone for SlotBackend"],"fade_phase: self.fade_phase,","fade_phase: 0.0,")),
m("slot-clone-latest","P03",(L,["impl Clone for SlotBackend"],"latest: self.latest.clone(),","latest: None,")),
m("slot-latest-return","P11",(L,["fn handle_messages"],"if self.sender.try_send(SlotMessage::Return(latest)).is_ok() {}","drop(latest);")),
m("slot-process-tail","P10",(L,["fn process"],"*x = *y;","*x += *y;")),
m("slot-phase-left","P10",(L,["fn process"],"self.fade_phase += n as f64 / (self.fade_time * self.sample_rate);","self.fade_phase += size as f64 / (self.fade_time * self.sample_rate);")),
m("slot-sr-next","P10",(L,["fn set_sample_rate"],"            latest.set_sample_rate(sample_rate);\n","            let _ = latest;\n")),
m("slot-alloc-latest","P04",(L,["fn allocate"],"            latest.allocate();\n","            let _ = latest;\n")),
m("slot-tick-power","P10",(L,["fn tick"],"let f = self.fade.at(self.fade_phase) as f32;","let f = 1.0 - f;")),
]
