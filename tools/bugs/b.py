A="src/audionode.rs"
def m(id,prop,*edits): return dict(id=id,property=prop,edits=list(edits))
BUGS=[
# audionode
m("thru-degenerate-size","P01",(A,["if X::Inputs::USIZE < X::Outputs::USIZE {"],"for i in 0..simd_items(size) {","for i in 0..full_simd_items(size) {")),
m("multijoin-last","P05",(A,["for MultiJoin<M, N>","fn process"],"output.add(channel % M::USIZE","output.add(channel % N::USIZE.min(M::USIZE)")),
m("reduce-process-order","P05",(A,["for Reduce<N, X, B>","fn process"],"self.b.binop(output.at(channel, j), buffer.at(channel, j))","self.b.binop(buffer.at(channel, j), output.at(channel, j))")),
m("negadd-route","P13",(A,["for FrameNegAddScalar<N>","fn route"],"Signal::Response(rx, lx) => Signal::Response(-rx, lx)","Signal::Response(rx, lx) => Signal::Response(rx, lx)")),
m("mul-value-latency","P14",(A,["for FrameMul<N>","fn route"],"(Signal::Response(_, lx), Signal::Response(_, ly)) => Signal::Latency(min(lx, ly)),\n            (Signal::Response(_, lx), Signal::Latency(ly)) => Signal::Latency(min(lx, ly)),","(Signal::Response(_, lx), Signal::Response(_, ly)) => Signal::Latency(min(lx, ly)),\n            (Signal::Response(_, lx), Signal::Latency(ly)) => Signal::Latency(max(lx, ly)),")),
m("mul-latency-max","P14",(A,["for FrameMul<N>","fn route"],"(Signal::Latency(lx), Signal::Latency(ly)) => Signal::Latency(min(lx, ly))","(Signal::Latency(lx), Signal::Latency(ly)) => Signal::Latency(max(lx, ly))")),
m("latency-first-output","P14",(A,["fn latency(&mut self)"],"(Some(r), Signal::Latency(x)) => result = Some(r.min(x)),","")),
m("audiounit-latency-max","P14",("src/audiounit.rs",["fn latency(&mut self)"],"Some(r.min(x))","Some(r.max(x))")),
m("multibranch-alloc","P11",(A,["for MultiBranch<N, X>","fn allocate"],"for x in &mut self.x {","for x in self.x.iter_mut().skip(1) {")),
m("multibranch-alloc4","P04",(A,["for MultiBranch<N, X>","fn allocate"],"for x in &mut self.x {","for x in self.x.iter_mut().skip(1) {")),
m("chain-ping","P20",(A,["for Chain<N, X>","fn ping"],"hash = x.ping(probe, hash);","x.ping(probe, hash);")),
m("bus-ping","P20",(A,["for Bus<X, Y>","fn ping"],"self.y.ping(probe, self.x.ping(probe, hash.hash(Self::ID)))","let h = hash.hash(Self::ID); self.x.ping(probe, h); self.y.ping(probe, h)")),
m("stack-set","P15",(A,["for Branch<X, Y>","fn set(&mut self, setting"],"Address::Right => self.y.set(setting.peel())","Address::Right => self.y.set(setting)")),
m("split-route","P13",("src/signal.rs",["Routing::Join =>"],"input.at(i + j * outputs)","input.at(i * bundle + j)")),
m("distort-value","P13",("src/signal.rs",["pub fn distort"],"Signal::Response(_, l) => Signal::Latency(l + latency)","Signal::Response(r, l) => Signal::Response(*r, l + latency)")),
m("combine-nonlin-latency","P14",("src/signal.rs",["pub fn combine_nonlinear"],"(_, Signal::Latency(ly)) => Signal::Latency(ly + latency)","(_, Signal::Latency(_)) => Signal::Latency(latency)")),
m("combine-lin-value-latency","P14",("src/signal.rs",["pub fn combine_linear"],"ly + latency)\n            }\n            (Signal::Response(_, lx), Signal::Latency","latency)\n            }\n            (Signal::Response(_, lx), Signal::Latency")),
m("impulse-reset","P02",(A,["for Impulse<N>","fn reset"],"self.value = 1.0;","")),
# delay
m("tap-buflen","P18",("src/delay.rs",["for Tap<N>","set_sample_rate"],"+ 3.0 + SIMD_N as f32","+ 3.0")),
m("taplinear-buflen","P18",("src/delay.rs",["for TapLinear<N>","set_sample_rate"],"+ 2.0 + SIMD_N as f32","+ 2.0")),
m("tap-maxclamp","P18",("src/delay.rs",["for Tap<N>","fn tick"],"clamp(self.min_delay_clamped, self.max_delay_clamped, input[tap_i])","clamp(self.min_delay_clamped, self.max_delay_clamped, input[1])")),
m("tap-process-min","P01",("src/delay.rs",["for Tap<N>","fn process"],"fast_max(F32x::splat(self.min_delay_clamped))","fast_max(F32x::splat(self.min_delay))")),
m("allnest-reset","P02",("src/delay.rs",["for AllNest<N, X>","fn reset"],"self.x.reset();","")),
m("feedback2-reset","P02",("src/feedback.rs",["for Feedback2<N, X, Y, U>","fn reset"],"self.y.reset();\n","")),
m("feedback2-sr","P04",("src/feedback.rs",["for Feedback2<N, X, Y, U>","fn set_sample_rate"],"self.y.set_sample_rate(sample_rate);","")),
m("feedback-value-reset","P02",("src/feedback.rs",["for Feedback<N, X, U>","fn reset"],"self.value = Frame::default();","")),
]
