# Changes that show only past a threshold: long runs, large sizes, many units, deep addresses.
def m(i,p,*e): return dict(id=i,property=p,edits=list(e))
S="src/sequencer.rs"; N="src/net.rs"; D="src/delay.rs"; NO="src/noise.rs"; DY="src/dynamics.rs"; SH="src/shared.rs"
BUGS=[
m("noise-period","P20",(NO,["AudioNode for Noise","fn tick"],"self.state = self.state.wrapping_add(1);","self.state = (self.state & !0xffff) | (self.state.wrapping_add(1) & 0xffff);"),(NO,["AudioNode for Noise","fn process"],"self.state = self.state.wrapping_add(size as u32);","self.state = (self.state & !0xffff) | (self.state.wrapping_add(size as u32) & 0xffff);")),
m("noise-24bit","P20",(NO,["AudioNode for Noise","fn reset"],"(hash ^ (hash >> 32)) as u32","((hash ^ (hash >> 32)) as u32) & 0xffff")),
m("seq-time-f32","P08",(S,["pub fn new(\n        unit: Box<dyn AudioUnit>"],"            start_time,\n            end_time,","            start_time: start_time as f32 as f64,\n            end_time: end_time as f32 as f64,")),
m("seq-clock-f32","P08",(S,["AudioUnit for Sequencer","fn process"],"self.time = end_time;","self.time = if end_time > 60.0 { end_time as f32 as f64 } else { end_time };")),
m("seq-reset-past","P02",(S,["AudioUnit for Sequencer","fn reset"],"                self.active.push(past);\n            }\n            for i in 0..self.active.len() {\n                self.active[i].unit.reset();\n            }","                self.active.push(past);\n            }\n            for i in 0..core::cmp::min(self.active.len(), 4) {\n                self.active[i].unit.reset();\n            }")),
m("seq-rate-eps","P08",(S,["AudioUnit for Sequencer","fn set_sample_rate"],"if self.sample_rate != sample_rate {","if (self.sample_rate - sample_rate).abs() > 1000.0 {")),
m("seq-capacity","P11",(S,"const DEFAULT_CAPACITY: usize = 16384;","const DEFAULT_CAPACITY: usize = 128;")),
m("seq-chan","P09",(S,["pub fn backend"],"channel(2048);\n        let (sender_b","channel(64);\n        let (sender_b")),
m("seq-chan-b","P09",(S,["pub fn backend"],"let (sender_b, receiver_b) = channel(2048);","let (sender_b, receiver_b) = channel(32);")),
m("delay-long","P18",(D,["AudioNode for Delay","fn set_sample_rate"],"round(self.time * sample_rate) as usize","core::cmp::min(round(self.time * sample_rate) as usize, 1 << 16)")),
m("delay-f32","P18",(D,["AudioNode for Delay","fn set_sample_rate"],"round(self.time * sample_rate) as usize","round((self.time as f32 * sample_rate as f32) * 0.99999) as usize")),
m("tap-long","P18",(D,["AudioNode for Tap<N>","fn set_sample_rate"],"(buffer_length as usize).next_power_of_two()","core::cmp::min((buffer_length as usize).next_power_of_two(), 65536)")),
m("timer-f32","P16",(SH,["AudioNode for Timer","fn tick"],"self.time += self.sample_duration;","self.time = (self.time as f32 + self.sample_duration as f32) as f64;")),
m("timer-f32p","P16",(SH,["AudioNode for Timer","fn process"],"self.time += size as f64 * self.sample_duration;","self.time = (self.time as f32 + (size as f64 * self.sample_duration) as f32) as f64;")),
m("reduce-odd","P21",(DY,["impl<T, B> ReduceBuffer<T, B>","pub fn set("],"while i > 1 {","let stop = if self.length > 1024 { 3 } else { 1 };\n        while i > stop {")),
m("fft-16384","P22",("src/fft.rs",["pub fn real_fft"],"16384 => rfft_16384(data.try_into().unwrap()).as_mut_slice(),","16384 => { let x = rfft_16384(data.try_into().unwrap()).as_mut_slice(); x[8191].im = 0.0; x }")),
m("env-long","P01",("src/envelope.rs",["AudioNode for Envelope<F, E, R>","fn process"],"(self.t_1 - self.t) / self.sample_duration).ceil()","(self.t_1 - self.t) / self.sample_duration).round()")),
m("net-order-wide","P06",(N,["fn determine_order_in"],"for channel in 0..net.vertex[i].inputs() {","for channel in 0..core::cmp::min(net.vertex[i].inputs(), 8) {")),
m("net-order-cycle","P06",(N,["fn determine_order_in"],"if !self.vertex[i].ordered {\n                    order.push(i);","if !self.vertex[i].ordered && i > 0 {\n                    order.push(i);")),
m("net-scalar","P06",(N,["pub fn scalar"],"net.connect_output(id, 0, i);","if i < 4 { net.connect_output(id, 0, i); }")),
m("slot-full","P10",("src/slot.rs",["pub fn new(mut initial_unit"],"let (sender_b, receiver_b) = channel(1024);","let (sender_b, receiver_b) = channel(8);")),
m("slot-zero-fade","P10",("src/slot.rs",["AudioUnit for SlotBackend","fn process"],"if phase_left <= size {","if phase_left < size {")),
m("snoop-chan","P16",("src/snoop.rs",["pub fn new(capacity"],"channel(1024)","channel(128)")),
m("snoop-cap","P16",("src/snoop.rs",["pub fn new(capacity"],"capacity.next_power_of_two()","core::cmp::min(capacity.next_power_of_two(), 4096)")),
m("timer-rate","P16",(SH,["AudioNode for Timer","fn set_sample_rate"],"1.0 / sample_rate","1.0 / sample_rate as i32 as f64")),
]
