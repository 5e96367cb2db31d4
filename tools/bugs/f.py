W="src/wavetable.rs"; O="src/oscillator.rs"; SN="src/snoop.rs"; SHR="src/shared.rs"; BU="src/buffer.rs"; ST="src/setting.rs"; WA="src/wave.rs"; WR="src/write.rs"; RD="src/read.rs"; MA="src/math.rs"; RI="src/ring.rs"; SY="src/system.rs"
def m(id,prop,*edits): return dict(id=id,property=prop,edits=list(edits))
BUGS=[
# wavetable
m("wt-max-f","P19",(W,"const MAX_F: f64 = 22_000.0;","const MAX_F: f64 = 26_000.0;")),
m("wt-len","P19",(W,"let target_len = 4 * harmonics;","let target_len = 2 * harmonics;")),
m("wt-table-plus1","P19",(W,["pub fn read("],"(1.0 - w) * self.at(table + 1, phase) + w * self.at(table + 2, phase)","(1.0 - w) * self.at(table, phase) + w * self.at(table + 1, phase)")),
m("wt-table-simd","P01",(W,["pub fn read_simd("],"w * self.at_simd(table + 2, phase)","w * self.at_simd(table + 1, phase)")),
m("wt-simd-mask","P19",(W,["pub fn at_simd"],"let i0 = (i1 - 1) & mask;","let i0 = ((i1 & mask) - 1).max(I32x::splat(0));")),
m("wt-at-i3","P01",(W,["pub fn at("],"let i3 = (i1 + 2) & mask;","let i3 = core::cmp::min(i1 + 2, mask);")),
m("wt-hint","P19",(W,"frequency <= self.table[table_hint + 1].0","frequency <= self.table[table_hint + 2].0")),
m("wt-search","P19",(W,"let mut i1 = self.table.len() - 3;","let mut i1 = self.table.len() - 4;")),
m("wt-absfreq","P01",(W,["impl<N> AudioNode for WaveSynth<N>","fn process"],"abs(frequency)","frequency")),
m("wt-absfreq2","P19",(W,["impl<N> AudioNode for WaveSynth<N>","fn process"],"abs(frequency)","frequency"),(W,["impl<N> AudioNode for WaveSynth<N>","fn tick"],"abs(frequency)","frequency")),
m("wt-phase-init","P19",(W,["impl<N> AudioNode for WaveSynth<N>","fn reset"],"Some(phase) => phase,","Some(phase) => phase * 0.5,")),
m("wt-phase-out","P19",(W,"                output.set(1, i, phase_simd);","                output.set(1, i, phase_simd - F32x::splat(0.0)); if i == 7 { output.set(1, i, phase_simd + F32x::splat(1.0)); }")),
m("wt-negphase","P19",(W,["impl<N> AudioNode for WaveSynth<N>","fn tick"],"        self.phase -= floor(self.phase);\n","        if self.phase >= 1.0 { self.phase -= floor(self.phase); }\n")),
m("wt-sethash-noreset","P20",(W,["impl<N> AudioNode for WaveSynth<N>","fn set_hash"],"        self.reset();\n","")),
m("wt-set-phase","P15",(W,["impl<N> AudioNode for WaveSynth<N>","fn set("],"self.initial_phase = Some(*phase);","self.initial_phase = Some(*phase); self.hash = 0;")),
m("ps-delta","P19",(W,"min(abs(phase - 1.0 - self.phase), abs(phase + 1.0 - self.phase))","abs(phase - 1.0 - self.phase)")),
m("ps-reset","P02",(W,["for PhaseSynth","fn reset"],"self.phase_ready = false;","self.phase = 0.0;")),
m("ps-sr","P19",(W,["for PhaseSynth","fn set_sample_rate"],"self.sample_rate = sample_rate as f32;","self.sample_rate = max(self.sample_rate, sample_rate as f32);")),
m("ps-first","P19",(W,"            self.phase_ready = true;\n            0.5","            self.phase_ready = true;\n            0.0")),
m("pulse-ping","P20",(W,["for PulseWave","fn ping"],"self.pulse.ping(probe, hash).hash(Self::ID)","let _ = probe; hash.hash(Self::ID)")),
m("pulse-sr","P19",(W,["for PulseWave","fn set_sample_rate"],"self.pulse.set_sample_rate(sample_rate);","self.pulse.left_mut().left_mut().left_mut().set_sample_rate(sample_rate);")),
m("pulse-set","P19",(W,["for PulseWave","fn set("],"self.pulse.left_mut().left_mut().left_mut().set(setting);","self.pulse.left_mut().left_mut().set(setting);")),
m("saw-even","P19",(W,["pub fn saw_table"],"1.0 / i as f64","if i > 64 { 0.5 / i as f64 } else { 1.0 / i as f64 }")),
m("tri-sign","P19",(W,["pub fn triangle_table"],"1.0 / (i * i) as f64","1.0 / (i as f64).powf(1.97)")),
m("wt-neg-w","P19",(W,"if w > 0.0 {","if w > 0.002 {")),
# oscillators
m("ramp-sr","P19",(O,["AudioNode for Ramp<F>","fn set_sample_rate"],"convert(1.0 / sample_rate)","convert(1.0 / round(sample_rate))")),
m("ramp-wrap","P19",(O,["AudioNode for Ramp<F>","fn tick"],"        self.phase -= self.phase.floor();\n","        if self.phase >= F::from_f32(1.0) { self.phase -= F::from_f32(1.0); }\n")),
m("polysaw-blep","P19",(O,["AudioNode for PolySaw<F>","fn tick"],"polyblep(phase, delta)","polyblep(phase, self.sample_duration * F::from_f32(440.0))")),
m("polysaw-set","P15",(O,["AudioNode for PolySaw<F>","fn set("],"self.initial_phase = Some(F::from_f32(*phase));","self.phase = F::from_f32(*phase);")),
m("polysq-half","P19",(O,["AudioNode for PolySquare<F>","fn tick"],"polyblep(half - half.floor(), delta)","polyblep(half, delta)")),
m("polypulse-width","P19",(O,["AudioNode for PolyPulse<F>","fn tick"],"let half = phase - width;","let half = phase - F::from_f32(0.5);")),
m("polypulse-withphase","P19",(O,["impl<F: Real> PolyPulse<F>","pub fn with_phase"],"        osc.reset();\n","")),
m("polyblep-sign","P19",(O,"z + z + z * z + F::one()","z + z - z * z + F::one()")),
m("polysq-hash","P20",(O,["AudioNode for PolySquare<F>","fn set_hash"],"        self.hash = hash;\n        self.reset();\n","        let _ = hash;\n        self.reset();\n")),
m("dsf-set-order","P19",(O,["AudioNode for Dsf<N>","fn set("],"self.set_roughness(*roughness)","self.roughness = *roughness")),
m("dsf-rough-clamp","P19",(O,"clamp(0.0001, 0.9999, roughness)","clamp(0.0001, 0.999, roughness)")),
m("dsf-phase","P19",(O,["AudioNode for Dsf<N>","fn tick"],"            self.phase * f32::TAU * self.harmonic_spacing,","            self.phase * f32::TAU * self.harmonic_spacing.round(),")),
# snoop, ring, shared
m("snoop-at","P16",(SN,"(self.index + self.latest.len() - index - 1)","(self.index + self.latest.len() - index % core::cmp::max(self.latest.len(), 65) - 1)")),
m("snoop-total","P16",(SN,"self.total += 1;","self.total += (i & 1) as u64 * 2;")),
m("snoop-cap","P16",(SN,"let capacity = capacity.next_power_of_two();","let capacity = core::cmp::max(capacity, MAX_BUFFER_SIZE).next_power_of_two();")),
m("snoop-process-lanes","P16",(SN,["fn process"],"for i in 0..size {","for i in 0..(if size > 60 { MAX_BUFFER_SIZE } else { size }) {")),
m("snoop-reset","P16",(SN,["fn reset"],"self.index = 0;","self.index &= 63;")),
m("snoop-clone-send","P16",(SN,["fn tick"],"            if self.sender.try_send(self.buffer.clone()).is_ok() {}\n            self.index = 0;","            if self.sender.try_send(self.buffer.clone()).is_ok() { self.index = 0; } else { self.index = MAX_BUFFER_SIZE - 1; }")),
m("snoop-update-one","P16",(SN,"while let Some(_buffer) = self.get() {}","for _ in 0..512 { if self.get().is_none() { break; } }")),
m("ring-underrun","P16",(RI,"self.receiver.try_recv().unwrap_or_default()","match self.receiver.try_recv() { Ok(x) => x, Err(_) => { let _ = self.receiver.try_recv(); Frame::default() } }")),
m("var-process","P16",(SHR,["AudioNode for Var","fn process"],"F32x::splat(sample.to_f32())","F32x::splat(clamp11(sample.to_f32() * 1e-9) * 1e9)")),
m("varfn-chan","P16",(SHR,"F32x::splat(frame[channel].to_f32())","F32x::splat(frame[core::cmp::min(channel, 2)].to_f32())")),
m("timer-f32","P16",(SHR,["AudioNode for Timer","fn tick"],"self.time += self.sample_duration;","self.time = (self.time as f32 + self.sample_duration as f32) as f64;")),
m("timer-process","P16",(SHR,["AudioNode for Timer","fn process"],"size as f64 * self.sample_duration","simd_items(size) as f64 * 8.0 * self.sample_duration")),
m("timer-reset-shared","P16",(SHR,["AudioNode for Timer","fn reset"],"        self.shared.set_value(0.0);\n","")),
m("timer-sr","P16",(SHR,["AudioNode for Timer","fn set_sample_rate"],"self.sample_duration = 1.0 / sample_rate;","self.sample_duration = 1.0 / sample_rate.max(DEFAULT_SR);")),
m("shared-torn","P16",(SHR,["impl Atomic for f32","fn store"],"stored.store(t.to_bits(), Ordering::Relaxed);","let b = t.to_bits(); stored.store((stored.load(Ordering::Relaxed) & 0xffff) | (b & 0xffff0000), Ordering::Relaxed); stored.store(b, Ordering::Relaxed);")),
m("idgen-race","P16",(SHR,"            .fetch_update(Ordering::Release, Ordering::Acquire, |x| {\n                Some(x.wrapping_add(1))\n            })\n            .unwrap();\n        if low < DANGER","            .load(Ordering::Acquire);\n        self.low.store(low.wrapping_add(1), Ordering::Release);\n        if low < DANGER")),
m("atable-cubic","P16",(SHR,["pub fn read_cubic"],"let i3 = (i1 + 2) & mask;","let i3 = (i1 + 3) & mask;")),
m("atable-linear","P16",(SHR,["pub fn read_linear"],"let i1 = (i0 + 1) & mask;","let i1 = core::cmp::min(i0 + 1, mask);")),
m("asynth-hash","P20",(SHR,["AudioNode for AtomicSynth<T>","fn set_hash"],"        self.phase = self.initial_phase;\n","")),
m("asynth-sr","P16",(SHR,["AudioNode for AtomicSynth<T>","fn set_sample_rate"],"        self.sample_duration = 1.0 / sample_rate as f32;\n","")),
# buffer
m("buf-add","P25",(BU,"(self.0)[(channel << SIMD_C) + i] += value;","(self.0)[(channel << SIMD_C) + (i & 7)] += value; let _ = 0;")),
m("buf-subset-mut","P25",(BU,["BufferMut<'a>","pub fn subset"],"(first_channel << SIMD_C)..((first_channel + channels) << SIMD_C)","(first_channel << SIMD_C)..((first_channel + channels.max(1)) << SIMD_C)")),
m("buf-resize","P25",(BU,["pub fn resize"],"        self.buffer.resize(channels << SIMD_C, F32x::ZERO);","        let n = self.buffer.len(); self.buffer.resize(channels << SIMD_C, F32x::ZERO); if n > 0 && channels << SIMD_C > n { let x = self.buffer[n - 1]; self.buffer[n] = x; }")),
m("buf-array-clear","P25",(BU,["for BufferArray","pub fn clear"],"self.array.fill([F32x::ZERO; SIMD_LEN]);","self.array[0].fill(F32x::ZERO);")),
m("buf-setf32","P25",(BU,["impl BufferVec","pub fn set_f32"],"[i & SIMD_M] = value;","[i & SIMD_M] = if value.is_nan() { 0.0 } else { value };")),
# setting
m("set-peel-order","P15",(ST,"self.address.remove(0);","self.address.swap_remove(0);")),
m("set-listener-one","P15",(ST,"while let Result::Ok(setting) = self.rv.try_recv() {","if let Result::Ok(setting) = self.rv.try_recv() {")),
m("set-listener-reset","P15",(ST,["for SettingListener<X>","fn reset"],"        self.receive_settings();\n","")),
m("set-listener-route","P15",(ST,["for SettingListener<X>","fn route"],"        self.receive_settings();\n","")),
m("set-listener-sr","P15",(ST,["for SettingListener<X>","fn set_sample_rate"],"        self.receive_settings();\n","")),
m("set-listener-clone","P03",(ST,"            rv: receiver,\n        }\n    }\n}\n\n","            rv: receiver,\n        }\n    }\n}\n",)),
m("set-address-cap","P15",(ST,"self.address.push(Address::Right);","if self.address.len() < 3 { self.address.push(Address::Right); }")),
m("set-delay-time","P15",(ST,["pub fn delay("],"Parameter::Delay(delay)","Parameter::Time(delay)")),
# wave
m("wave-zero-round","P17",(WA,["pub fn zero"],"(duration * sample_rate).round()","(duration * sample_rate)")),
m("wave-mix-neg","P17",(WA,["pub fn mix_channel"],"samples[(i - offset) as usize]","samples[(i - max(offset, 0)) as usize]")),
m("wave-remove-len","P17",(WA,["pub fn remove_channel"],"        if self.channels() == 1 {\n            self.len = 0;\n        }\n","")),
m("wave-insert","P17",(WA,["pub fn insert_channel"],"        if self.channels() == 0 {\n            self.len = samples.len();\n        }\n","")),
m("wave-push-empty","P17",(WA,["pub fn push<"],"        if self.channels() > 0 {\n            self.len += 1;\n        }","        self.len += 1;")),
m("wave-amp-neg","P17",(WA,["pub fn amplitude"],".abs()","")),
m("wave-norm-1","P17",(WA,["pub fn normalize"],"a == 0.0 || a == 1.0","a == 0.0 || abs(a - 1.0) < 0.001")),
m("wave-fadein-len","P17",(WA,["pub fn fade_in"],"let time = min(time, self.duration());\n","let time = min(time, self.duration() * 0.5);\n")),
m("wave-fadeout-off","P17",(WA,["pub fn fade_out"],"(fade_n - i as f64)","(fade_n - 1.0 - i as f64)")),
m("wave-render-tail","P17",(WA,["pub fn render("],"(n & !7) + j","(n & 56) + core::cmp::min(j, 6)")),
m("wave-render-sr","P17",(WA,["pub fn render("],"        node.set_sample_rate(sample_rate);\n","")),
m("wave-filter-noclear","P17",(WA,["pub fn filter("],"            input_buffer.clear();\n","")),
m("wave-filter-len","P17",(WA,["pub fn filter("],"round(duration * self.sample_rate()) as usize","floor(duration * self.sample_rate()) as usize")),
m("wave-flat-round","P14",(WA,["pub fn filter_latency"],"i + latency_samples","i + latency_samples - (latency_samples > 64) as usize")),
m("wave-resize-shrink","P17",(WA,["pub fn resize"],"if length != self.length() {","if length > self.length() {")),
m("wave-retain-end","P17",(WA,["pub fn retain"],"for i in i0..i1 {","for i in i0..core::cmp::max(i1, i0 + 1) - 1 {")),
m("player-loop","P17",(WA,"                if let Some(point) = self.loop_point {\n                    self.index = point;","                if let Some(point) = self.loop_point {\n                    self.index = core::cmp::max(point, self.start_point);")),
m("player-reset","P02",(WA,["for WavePlayer","fn reset"],"self.index = self.start_point;","self.index = self.loop_point.unwrap_or(self.start_point);")),
m("wav-align","P17",(WR,"write16(writer, channels as u16 * sample_bytes as u16)?;","write16(writer, 2 * sample_bytes as u16)?;")),
m("wav-byterate","P17",(WR,"(sample_rate * channels) as u32 * sample_bytes","sample_rate as u32 * sample_bytes")),
m("wav-riff","P17",(WR,"data_length as u32 + 36","data_length as u32 + 44")),
m("wav-scale","P17",(WR,"* 32767.49","* 32000.0")),
m("wav-clamp","P17",(WR,"clamp11(self.at(channel, i))","self.at(channel, i)")),
m("wav-save","P17",(WR,["pub fn save_wav32"],"self.write_wav32(&mut file)","self.write_wav16(&mut file)")),
m("read-err","P17",(RD,"wave_output.len() - buffer_len + i,","core::cmp::min(wave_output.len() - buffer_len + i, 1 << 15),")),
m("read-chan","P17",(RD,"let x = dest.chan(channel);","let x = dest.chan(core::cmp::min(channel, 3));")),
# math
m("math-spline","P23",(MA,"T::new(2) * y0 - T::new(5) * y1 + T::new(4) * y2 - y3","T::new(2) * y0 - T::new(5) * y1 + T::new(4) * y2 - y3 + (y3 - y3) * y0",)),
m("math-softexp","P23",(MA,"p * p + p + T::one() / (T::one() + p - x)","p * p * p + p + T::one() / (T::one() + p - x)")),
m("math-smooth7","P23",(MA,"T::new(70) - T::new(20) * x","T::new(71) - T::new(21) * x")),
m("math-smooth9","P23",(MA,"T::new(70) * x - T::new(315)","T::new(71) * x - T::new(316)")),
m("math-dexerp","P23",(MA,["pub fn dexerp11"],"T::new(2) - T::new(1)","T::new(2) - T::one() * (b / b)")),
m("math-xerp11","P23",(MA,["pub fn xerp11"],"T::from_f32(0.5) + T::from_f32(0.5)","T::from_f32(0.5) + T::from_f32(0.4999)")),
m("math-triphase","P23",(MA,["pub fn tri_hz"],"T::from_f32(0.25)","T::from_f32(0.75)")),
m("math-sqr-neg","P23",(MA,["pub fn sqr_hz"],"let x = x - x.floor();","let x = x - (if x < T::zero() { x.ceil() } else { x.floor() });")),
m("math-hash11","P23",(MA,"(x >> 10) as f64 / (1u64 << 53) as f64 - 1.0","(x >> 10) as f64 / (1u64 << 53) as f64 - 0.5")),
m("math-ease-neg","P23",(MA,["pub fn ease_noise"],"let ix = fx.to_i64();","let ix = x.to_i64();")),
m("math-spline-noise-seed","P23",(MA,["pub fn spline_noise"],"let y3 = get_point(seed, ix.wrapping_add(2));","let y3 = get_point(seed, ix.wrapping_add(3));")),
m("math-fractal-w","P23",(MA,["pub fn fractal_noise"],"total_weight += octave_weight;\n        octave_weight *= roughness;","octave_weight *= roughness;\n        total_weight += octave_weight;")),
m("math-segpair","P23",(MA,"if y2 >= y1 {","if y2 >= y1 || y1 < T::zero() {")),
m("math-midi","P23",(MA,["pub fn midi_hz"],"/ T::new(12)","* T::from_f64(0.08333)")),
m("math-downarc","P23",(MA,["pub fn downarc"],"(T::new(2) - x) * x","(T::new(2) - x) * x * x.abs().max(T::one() - T::one())")),
m("math-diss","P23",(MA,["pub fn dissonance<"],"min(f0, f1)","f0")),
m("math-softmix","P23",(MA,"let yw = softexp(y * bias);","let yw = softexp(y * bias.abs());")),
m("math-rnd1","P23",(MA,["pub fn rnd1"],"(x >> 11) as f64 * (1.0 / (1u64 << 53) as f64)","(x >> 11) as f64 * (1.0 / ((1u64 << 53) - 1) as f64)")),
m("math-rnd2-dup","P23",(MA,["pub fn rnd2"],"funutd::hash::hash64g(x)","funutd::hash::hash64g(x >> 1)")),
m("sys-first","P04",(SY,["fn ping"],"self.x.ping(probe, hash.hash(Self::ID))","let _ = probe; hash.hash(Self::ID)")),
m("sys-alloc","P04",(SY,["fn allocate"],"self.x.allocate();","")),
]
