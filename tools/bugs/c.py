A="src/audionode.rs"; D="src/dynamics.rs"; EN="src/envelope.rs"; FO="src/follow.rs"; N="src/noise.rs"; O="src/oscillator.rs"
def m(id,prop,*edits): return dict(id=id,property=prop,edits=list(edits))
BUGS=[
m("multijoin-last","P05",(A,["for MultiJoin<M, N>","fn process"],"output.add(channel % M::USIZE","output.add(channel / N::USIZE")),
m("chain-ping","P20",(A,["for Chain<N, X>","fn ping"],"hash = x.ping(probe, hash);","x.ping(probe, hash.clone());")),
m("bus-ping","P20",(A,["for Bus<X, Y>","fn ping"],"self.y.ping(probe, self.x.ping(probe, hash.hash(Self::ID)))","let h = hash.hash(Self::ID); self.x.ping(probe, h.clone()); self.y.ping(probe, h)")),
m("latency-first-output","P14",(A,["fn latency(&mut self)"],"(Some(r), Signal::Latency(x)) => result = Some(r.min(x)),","")),
m("combine-nonlin-latency","P14",("src/signal.rs",["pub fn combine_nonlinear"],"(_, Signal::Latency(ly)) => Signal::Latency(ly + latency)","(_, Signal::Latency(_)) => Signal::Latency(latency)")),
m("thru-degenerate-size","P01",(A,["if X::Inputs::USIZE < X::Outputs::USIZE {"],"for i in 0..simd_items(size) {","for i in 0..full_simd_items(size) {")),
m("reduce-process-order","P05",(A,["for Reduce<N, X, B>","fn process"],"self.b.binop(output.at(channel, j), buffer.at(channel, j))","self.b.binop(buffer.at(channel, j), output.at(channel, j))")),
# dynamics
m("reducebuf-oddlen","P21",(D,"leaf_offset + length + (length & 1)","leaf_offset + length + (length & 1) + 1"),(D,"            let reduced = self.binop.binop(self.buffer[i], self.buffer[i ^ 1]);","            let reduced = self.binop.binop(self.buffer[i], self.buffer[i | 1]);")),
m("limiter-peak-not-amp","P21",(D,"let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, abs(x)));","let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, x));")),
m("limiter-sr-keeps-len","P14",(D,"if length != self.reducer.length {","if length > self.reducer.length {")),
m("limiter-reset-follower","P02",(D,"        self.follower.reset();\n        self.reducer.clear();","        self.reducer.clear();")),
m("limiter-first-peak","P21",(D,"                    .set_value(max(1.0, self.reducer.total() * 1.10));","                    .set_value(1.0);")),
m("declick-end","P01",(D,"ceil((self.duration - self.t) / self.sample_duration)","floor((self.duration - self.t) / self.sample_duration)")),
m("declick-time","P01",(D,"            self.t = end_time;","            self.t = min(end_time, self.duration);")),
m("declick-sr","P21",(D,["for Declick<F>"],"self.sample_duration = F::from_f64(1.0 / sample_rate);","if sample_rate > self.sample_rate { self.sample_duration = F::from_f64(1.0 / sample_rate); }"),),
m("meter-rms-sr","P21",(D,"Meter::Rms(timescale) => timescale,","Meter::Rms(timescale) => timescale * 0.5,")),
m("meter-peak-neg","P21",(D,"max(self.state * self.smoothing, abs(value))","max(self.state * self.smoothing, value)")),
m("monitor-latest","P16",(D,["for Monitor","fn process"],"self.state.tick(self.meter, input.at_f32(0, size - 1));","self.state.tick(self.meter, input.at_f32(0, 0));")),
m("monitor-size0","P12",(D,["for Monitor","fn process"],"        if size == 0 {\n            return;\n        }\n","")),
m("monitor-size0b","P01",(D,["for Monitor","fn process"],"        if size == 0 {\n            return;\n        }\n","")),
m("monitor-reset","P02",(D,["for Monitor","fn reset"],"self.state.reset(self.meter);","")),
m("monitor-sr","P04",(D,["for Monitor","fn set_sample_rate"],"self.state.set_sample_rate(self.meter, sample_rate);","let _ = sample_rate;")),
# envelope
m("env-process-value","P01",(EN,["for Envelope<F, E, R>","fn process"],"self.value[channel] = value;","if loop_samples < segment_samples_left { self.value[channel] = value + F::zero().to_f32(); } else { self.value[channel] = value; }")),
m("envin-input-index","P01",(EN,"self.next_segment(&Frame::generate(|j| input.at_f32(j, i)));","self.next_segment(&Frame::generate(|j| input.at_f32(j, i - 1)));")),
m("env-hash-reset","P02",(EN,["for Envelope<F, E, R>","fn reset"],"self.t_hash = self.hash;","")),
m("envin-reset","P02",(EN,["for EnvelopeIn<F, E, I, R>","fn reset"],"self.t_1 = F::zero();","")),
m("env-jitter","P21",(EN,["fn next_segment"],"let samples = next_interval / self.sample_duration;","let samples = self.interval / self.sample_duration;")),
m("env-delerp","P21",(EN,["fn next_segment"],"let u = delerp(self.t_0, self.t_1, self.t);","let u = F::zero();")),
m("envin-first","P21",(EN,["fn next_segment(&mut self, input"],"if self.t_0 == F::zero() && self.t_1 == F::zero() {","if self.t_0 == F::zero() {")),
# follow
m("follow-settime-jump","P21",(FO,["fn set_response_time"],"if self.coeff_now < F::one() {\n            self.coeff_now = self.coeff;\n        }","")),
m("follow-first","P21",(FO,["for Follow<F>","fn reset"],"self.coeff_now = F::one();","self.coeff_now = self.coeff;")),
m("afollow-reset","P02",(FO,["for AFollow<F>","fn reset"],"self.rcoeff_now = F::one();","")),
m("afollow-route","P13",(FO,["for AFollow<F>","fn route"],"if self.acoeff == self.rcoeff {","if self.atime >= self.rtime {")),
m("afollow-set","P15",(FO,["for AFollow<F>","fn set("],"self.set_time(F::from_f32(*attack), F::from_f32(*release));","self.set_time(F::from_f32(*attack), self.rtime);")),
# noise
m("mls-poly23","P20",(N,"    0b10000100000000000000000,","    0b10000010000000000000000,")),
m("mls-seed-zero","P20",(N,"s: 1 + seed % ((1 << n) - 1),","s: seed % ((1 << n) - 1),")),
m("noise-process-size","P01",(N,"self.state = self.state.wrapping_add(size as u32);","self.state = self.state.wrapping_add(((size + SIMD_N - 1) & !(SIMD_N - 1)) as u32);")),
m("noise-set-seed","P15",(N,["for Noise","fn set("],"self.seed = Some(*seed);","self.hash = *seed;")),
m("noise-hash-or","P20",(N,["for Noise","fn reset"],"self.state = (hash ^ (hash >> 32)) as u32;","self.state = (hash >> 48) as u32;")),
m("hold-reset","P02",(N,["for Hold","fn reset"],"self.rnd = Rnd::from_u64(self.hash);","")),
m("hold-variability","P20",(N,"1.0 + self.variability.to_f64(),","1.0,")),
m("hold-time","P20",(N,"self.next_t = self.t\n","self.next_t = self.next_t\n")),
# osc
m("sine-remainder","P01",(O,["for Sine<F>","fn process"],"self.phase = phase - phase.floor();\n        self.process_remainder(size, input, output);","self.process_remainder(size, input, output);\n        if full_simd_items(size) > 0 { self.phase = phase - phase.floor(); }")),
m("sine-negphase","P19",(O,["for Sine<F>","fn tick"],"self.phase -= self.phase.floor();","if self.phase >= F::one() { self.phase -= F::one(); }")),
m("sine-reset-phase","P02",(O,["for Sine<F>","fn set("],"self.initial_phase = Some(F::from_f32(*phase));","self.phase = F::from_f32(*phase);")),
m("sine-set-phase","P15",(O,["for Sine<F>","fn set("],"self.initial_phase = Some(F::from_f32(*phase));","self.phase = F::from_f32(*phase);")),
m("dsf-partials","P19",(O,["for Dsf<N>","fn tick"],"abs(input[0])) / self.harmonic_spacing","abs(input[0]))")),
m("pluck-reset-tuning","P02",(O,["fn initialize_line"],"self.tuning.reset();","")),
m("pluck-pos","P02",(O,["fn initialize_line"],"        self.pos = 0;\n","")),
m("pluck-alloc","P11",(O,["for Pluck","fn allocate"],"if !self.initialized {","if self.initialized {")),
m("pluck-sr","P04",(O,["for Pluck","fn set_sample_rate"],"            self.initialized = false;\n","")),
m("pluck-mean","P19",(O,["fn initialize_line"],"let allpass_delay = total_delay - loop_delay;","let allpass_delay = total_delay - loop_delay - epsilon;")),
m("rossler-reset","P02",(O,["for Rossler","fn reset"],"self.z = 1.0;","")),
m("lorenz-sr","P04",(O,["for Lorenz","fn set_sample_rate"],"self.sr = convert(sample_rate);","self.sr = max(self.sr, convert(sample_rate));")),
]
