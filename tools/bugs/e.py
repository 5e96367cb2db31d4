S="src/svf.rs"; B="src/biquad.rs"; BB="src/biquad_bank.rs"; FI="src/filter.rs"; FIR="src/fir.rs"; MO="src/moog.rs"; RZ="src/rez.rs"; PA="src/pan.rs"; SH="src/shape.rs"; DL="src/delay.rs"; FB="src/feedback.rs"; OV="src/oversample.rs"; RS="src/resynth.rs"; RV="src/reverb.rs"; RE="src/resample.rs"; FF="src/fft.rs"; GR="src/granular.rs"
def m(id,prop,*edits): return dict(id=id,property=prop,edits=list(edits))
BUGS=[
# svf
m("svf-bell-k","P13",(S,["pub fn bell"],"let k = F::one() / (q * a);","let k = F::one() / (q * gain);")),
m("svf-lowshelf-m1","P13",(S,["pub fn lowshelf"],"let m1 = k * (a - F::one());","let m1 = k * (a - F::one()) * a;")),
m("svf-highshelf-m1","P13",(S,["pub fn highshelf"],"let m1 = k * (F::one() - a) * a;","let m1 = k * (F::one() - a);")),
m("svf-peak-resp","P13",(S,["for PeakMode<F>","fn response"],"let k = 1.0 / params.q.to_f64();","let k = params.q.to_f64();")),
m("svf-lowshelf-gain-stale","P13",(S,["for LowshelfMode<F>","fn update_inputs"]," || gain != params.gain","")),
m("svf-bell-q-stale","P13",(S,["for BellMode<F>","fn update_inputs"]," || q != params.q","")),
m("svf-highshelf-gain-store","P13",(S,["for HighshelfMode<F>","fn update_inputs"],"            params.gain = gain;\n","")),
m("svf-allpass-q-stale","P13",(S,["for AllpassMode<F>","fn update_inputs"]," || q != params.q","")),
m("svf-counter-reset","P02",(S,["AudioNode for Svf<F, M>","fn reset"],"        self.counter = 0;\n","")),
m("svf-subsample-offby","P15",(S,"if self.counter >= self.period {","if self.counter > self.period {")),
m("svf-setq-nofreq","P15",(S,["pub fn set_cutoff_q(&mut self"],"        self.params.q = q;\n","")),
m("svf-set-gain-ignored","P15",(S,["pub fn set_cutoff_q_gain"],"        self.params.gain = gain;\n","")),
m("svf-fixed-sr","P04",(S,["AudioNode for FixedSvf<F, M>","fn set_sample_rate"],"        self.mode.update_frequency(&self.params, &mut self.coefs);\n","")),
m("svf-fixed-reset-ic2","P02",(S,["AudioNode for FixedSvf<F, M>","fn reset"],"        self.ic2eq = F::zero();\n","")),
m("svf-reset-ic1","P02",(S,["AudioNode for Svf<F, M>","fn reset"],"        self.ic1eq = F::zero();\n","")),
m("morph-route-stale","P13",(S,["AudioNode for Morph<F>","fn tick"],"        self.morph = input[3];\n","")),
m("morph-sr","P04",(S,["AudioNode for Morph<F>","fn set_sample_rate"],"self.filter.set_sample_rate(sample_rate);","let _ = sample_rate;")),
m("morph-mix","P13",(S,["AudioNode for Morph<F>","fn tick"],"(filter_out[0] + input[3] * input[0]) * 0.5","(filter_out[0] - input[3] * input[0]) * 0.5")),
# biquad
m("butter-a2","P13",(B,["pub fn response"],"re(self.a2) * z2","re(self.a2) * z1")),
m("butter-cutoff-sr","P04",(B,["AudioNode for ButterLowpass<F, N>","fn set_sample_rate"],"        self.set_cutoff(self.cutoff);\n","")),
m("reson-q-stale","P13",(B,["AudioNode for Resonator<F, N>","fn tick"]," || q != self.q","")),
m("reson-set-center-q","P15",(B,["AudioNode for Resonator<F, N>","fn set("],"self.set_center_q(F::from_f32(*center), self.q)","self.set_center_q(F::from_f32(*center), F::one())")),
m("biquad-set-b1","P15",(B,["AudioNode for Biquad<F>","fn set("],"F::from_f32(*b1),\n                F::from_f32(*b2),","F::from_f32(*b2),\n                F::from_f32(*b1),")),
m("biquad-reset-y2","P02",(B,["AudioNode for Biquad<F>","fn reset"],"        self.y2 = F::zero();\n","")),
m("fbbq-shape-reset","P02",(B,["AudioNode for FbBiquad<F, M, S>","fn reset"],"        self.shape.reset();\n","")),
m("fbbq-q-stale","P15",(B,["AudioNode for FbBiquad<F, M, S>","if M::Inputs::USIZE == 3"]," + squared(q - self.params.q)","")),
m("fbbq-gain-stale","P15",(B,["AudioNode for FbBiquad<F, M, S>","if M::Inputs::USIZE == 4"],"\n                + squared(gain - self.params.gain)","")),
m("fixfbbq-shape-sr","P04",(B,["AudioNode for FixedFbBiquad<F, M, S>","fn set_sample_rate"],"        self.shape.set_sample_rate(sample_rate);\n","")),
m("fixfbbq-setq","P15",(B,["AudioNode for FixedFbBiquad<F, M, S>","Parameter::CenterQGain"],"F::from_f32(*gain)","F::one()")),
m("dirtybq-shape2-reset","P02",(B,["AudioNode for DirtyBiquad<F, M, S>","fn reset"],"        self.shape2.reset();\n","")),
m("dirtybq-shape2-shared","P02",(B,["AudioNode for FixedDirtyBiquad<F, M, S>","fn reset"],"        self.shape2.reset();\n","")),
m("dirtybq-shape2-sr","P04",(B,["AudioNode for DirtyBiquad<F, M, S>","fn set_sample_rate"],"        self.shape2.set_sample_rate(sample_rate);\n","")),
m("fixdirty-s2","P02",(B,["AudioNode for FixedDirtyBiquad<F, M, S>","fn reset"],"        self.s2 = F::zero();\n","")),
m("fixdirty-center","P15",(B,["FixedDirtyBiquad<F, M, S> {","pub fn set_center(&mut self"],"        self.mode.update(&self.params, &mut self.coefs);\n","")),
m("bank-set-b2","P15",(BB,"self.coefs.b2.set(index, *b2);","self.coefs.b2.set(0, *b2);")),
m("bank-reset-x2","P02",(BB,"        self.x2 = F::zero();\n","")),
m("bank-route-idx","P13",(BB,"self.coefs.b1.get(i),","self.coefs.b1.get(0),")),
m("bank-route-sr","P13",(BB,["fn set_sample_rate"],"self.sample_rate = sample_rate;","let _ = sample_rate;")),
# filter
m("lowpole-sr","P04",(FI,["AudioNode for Lowpole<F, N>","fn set_sample_rate"],"        self.set_cutoff(self.cutoff);\n","")),
m("lowpole-set","P15",(FI,["AudioNode for Lowpole<F, N>","fn set("],"Parameter::Center(cutoff)","Parameter::Value(cutoff)")),
m("dcblock-reset-y1","P02",(FI,["AudioNode for DCBlock<F>","fn reset"],"        self.y1 = F::zero();\n","")),
m("dcblock-coeff","P13",(FI,["AudioNode for DCBlock<F>","fn route"],"(1.0 - z1) / (1.0 - c * z1)","c * (1.0 - z1) / (1.0 - c * z1)")),
m("pink-b6-order","P13",(FI,["AudioNode for Pinkpass<F>","fn tick"],"            + self.b6\n","            + x * F::from_f64(0.115926)\n")),
m("pink-reset-b6","P02",(FI,["AudioNode for Pinkpass<F>","fn reset"],"        self.b6 = F::zero();\n","")),
m("pink-reset-b0","P02",(FI,["AudioNode for Pinkpass<F>","fn reset"],"        self.b0 = F::zero();\n","")),
m("pink-sr","P13",(FI,["AudioNode for Pinkpass<F>","fn set_sample_rate"],"self.sample_rate = convert(sample_rate);","let _ = sample_rate;")),
m("allpole-eta","P13",(FI,["pub fn set_delay"],"(F::one() - delay) / (F::one() + delay)","(F::one() - delay) / (F::one() + delay * delay)")),
m("allpole-reset","P02",(FI,["AudioNode for Allpole<F, N>","fn reset"],"        self.x1 = F::zero();\n","")),
m("highpole-set","P15",(FI,["AudioNode for Highpole<F, N>","fn set("],"self.set_cutoff(F::from_f32(*cutoff));","self.cutoff = F::from_f32(*cutoff);")),
m("highpole-stale","P13",(FI,["AudioNode for Highpole<F, N>","fn tick"],"if cutoff != self.cutoff {","if cutoff > self.cutoff {")),
m("fir-route-order","P13",(FIR,"self.w[N::USIZE - 1 - i]","self.w[i]")),
m("fir-reset","P02",(FIR,["fn reset"],"self.v = Frame::default();","self.v[0] = 0.0;")),
m("fir-shift","P13",(FIR,"if i + 1 < N::USIZE {\n                self.v[i + 1]","if i + 1 < N::USIZE {\n                self.v[if N::USIZE > 6 && i == 0 { 2 } else { i + 1 }]")),
m("moog-reset-ps2","P02",(MO,"        self.ps2 = F::zero();\n","")),
m("moog-reset-px","P02",(MO,"        self.px = F::zero();\n","")),
m("moog-set-center","P15",(MO,"Parameter::Center(cutoff) => self.set_cutoff_q(F::from_f32(*cutoff), self.q),","Parameter::Center(cutoff) => self.set_cutoff_q(F::from_f32(*cutoff), self.rez),")),
m("moog-sr","P04",(MO,["fn set_sample_rate"],"        self.set_cutoff_q(self.cutoff, self.q);\n","")),
m("rez-sr","P04",(RZ,["fn set_sample_rate"],"        self.set_cutoff_q(self.cutoff, self.q);\n","")),
m("rez-q-stale","P15",(RZ," || q != self.q","")),
m("rez-reset","P02",(RZ,["fn reset"],"        self.buf1 = F::zero();\n","")),
m("rez-set-q","P15",(RZ,["fn set("],"self.set_cutoff_q(F::from_f32(*cutoff), F::from_f32(*q))","self.set_cutoff_q(F::from_f32(*cutoff), min(F::from_f32(*q), self.q))")),
# pan
m("pan-clamp","P24",(PA,"clamp11(value)","value")),
m("pan-process-stale","P01",(PA,["fn process"],"                self.set_pan(input.at_f32(1, i));\n","                if i & 7 == 0 { self.set_pan(input.at_f32(1, i)); }\n")),
m("pan-set","P15",(PA,["pub fn set_pan"],"self.right_weight = right_weight;","let _ = right_weight;")),
m("pan-route","P13",(PA,["fn route"],"output.set(1, input.at(0).scale(self.right_weight.to_f64()));","output.set(1, input.at(0).scale(self.left_weight.to_f64()));")),
m("mixer-zip","P24",(PA,"for (x, y) in input.iter().zip(self.matrix[i].iter()) {","for (x, y) in input.iter().rev().zip(self.matrix[i].iter().rev()).take(if M::USIZE > 4 { 4 } else { 8 }) {")),
m("mixer-route","P13",(PA,"for j in 1..self.inputs() {","for j in 1..core::cmp::min(2, self.inputs()) {")),
# shape
m("clip-simd-order","P01",(SH,["Shape for Clip ","fn simd"],"(input * self.0).fast_max(-F32x::ONE)","(input * self.0).fast_max(-F32x::ONE * self.0)")),
m("clipto-simd","P01",(SH,["Shape for ClipTo","fn simd"],".fast_max(F32x::splat(self.0))",".fast_max(F32x::splat(-self.1))")),
m("softsign-simd","P01",(SH,["Shape for Softsign","fn simd"],"x / (F32x::ONE + x.abs())","x / (F32x::ONE + input.abs())")),
m("crush-round","P24",(SH,["Shape for Crush","fn shape"],"libm::rintf(input * self.0)","libm::floorf(input * self.0)")),
m("crush-tie","P01",(SH,["Shape for Crush","fn shape"],"libm::rintf(input * self.0)","libm::roundf(input * self.0)")),
m("softcrush-neg","P24",(SH,["Shape for SoftCrush","fn shape"],"let y = floor(x);","let y = libm::truncf(x);")),
m("adaptive-reset","P02",(SH,["for Adaptive<S>","fn reset"],"        self.state = 1.0e-3;\n","")),
m("adaptive-inner-reset","P02",(SH,["for Adaptive<S>","fn reset"],"        self.inner.reset();\n","")),
m("adaptive-inner-sr","P04",(SH,["for Adaptive<S>","fn set_sample_rate"],"        self.inner.set_sample_rate(sample_rate);\n","")),
m("shaper-sr","P04",(SH,["for Shaper<S>","fn set_sample_rate"],"self.shape.set_sample_rate(sample_rate);","let _ = sample_rate;")),
m("shaper-route","P14",(SH,["for Shaper<S>","fn route"],"distort(0.0)","distort(1.0)")),
# delay
m("delay-round","P18",(DL,"self.time_in_samples = round(self.time * sample_rate) as usize;","self.time_in_samples = floor(self.time * sample_rate + 0.49) as usize;")),
m("delay-route","P13",(DL,["for Delay","fn route"],"-f64::TAU * self.time_in_samples as f64 * frequency / self.sample_rate","-f64::TAU * self.time * frequency")),
m("delay-sr-resize-clear","P04",(DL,["for Delay","fn set_sample_rate"],"            self.reset();\n","            self.i = 0;\n")),
m("delay-sr-i","P04",(DL,["for Delay","fn set_sample_rate"],"            self.reset();\n","            self.buffer.fill(0.0);\n")),
m("tap-clamp-max","P18",(DL,["for Tap<N>","fn tick"],"clamp(self.min_delay_clamped, self.max_delay_clamped, input[tap_i])","clamp(self.min_delay_clamped, self.max_delay_clamped, input[tap_i] + 0.0).min(self.max_delay)")),
m("tap-buflen","P18",(DL,["for Tap<N>","fn set_sample_rate"]," + 3.0 + SIMD_N as f32"," + 1.0")),
m("tap-buflen2","P18",(DL,["for Tap<N>","fn set_sample_rate"]," + 3.0 + SIMD_N as f32"," + 3.0")),
m("taplin-buflen2","P18",(DL,["for TapLinear<N>","fn set_sample_rate"]," + 2.0 + SIMD_N as f32"," + 2.0")),
m("taplin-buflen3","P18",(DL,["for TapLinear<N>","fn set_sample_rate"]," + 2.0 + SIMD_N as f32"," + 1.0 + SIMD_N as f32")),
m("tap-buflen3","P18",(DL,["for Tap<N>","fn set_sample_rate"]," + 3.0 + SIMD_N as f32"," + 2.0 + SIMD_N as f32")),
m("tap-reset-i","P02",(DL,["for Tap<N>","fn reset"],"        self.buffer.fill(0.0);\n","        let _n = self.i; self.buffer[.._n].fill(0.0);\n")),
m("tap-simd-min","P01",(DL,["for Tap<N>","fn process"],".fast_max(F32x::splat(self.min_delay_clamped))",".fast_max(F32x::splat(self.min_delay))")),
m("taplin-second","P18",(DL,["for TapLinear<N>","fn process"],"                    .at(tap_i, i)\n","                    .at(core::cmp::min(tap_i, 2), i)\n")),
m("tap-route-nonlin","P13",(DL,["for Tap<N>","fn route"],"input.at(0).distort(0.0)","input.at(0).filter(0.0, |r| r)")),
m("allnest-order","P18",(DL,["for AllNest<N, X>","fn tick"],"let y = self.eta * v + self.z;","let y = self.eta * input[0] + self.z;")),
m("allnest-reset-z","P02",(DL,["for AllNest<N, X>","fn reset"],"        self.z = 0.0;\n","")),
m("allnest-alloc","P04",(DL,["for AllNest<N, X>","fn allocate"],"self.x.allocate();","")),
m("allnest-ping","P20",(DL,["for AllNest<N, X>","fn ping"],"self.x.ping(probe, hash.hash(Self::ID))","let _ = probe; hash.hash(Self::ID)")),
m("tick-route","P13",(DL,["for Tick<N>","fn set_sample_rate"],"self.sample_rate = sample_rate;","let _ = sample_rate;")),
# feedback
m("hadamard-norm","P18",(FB,"1.0 / sqrt(N::I32 as f64)","1.0 / sqrt((N::I32 - (N::I32 >> 4)) as f64)")),
m("hadamard-stride","P18",(FB,"i += h * 2;","i += if h >= 8 { h * 4 } else { h * 2 };")),
m("fb-reset-value","P02",(FB,["AudioNode for Feedback<N, X, U>","fn reset"],"        self.value = Frame::default();\n","")),
m("fb2-y-sr","P04",(FB,["AudioNode for Feedback2<N, X, Y, U>","fn set_sample_rate"],"        self.y.set_sample_rate(sample_rate);\n","")),
m("fb2-process-y","P18",(FB,["AudioNode for Feedback2<N, X, Y, U>","fn process"],"self.value = self.feedback.frame(&self.y.tick(&output_frame));","let _y = self.feedback.frame(&output_frame); self.value = self.y.tick(&_y);")),
m("fb2-alloc","P04",(FB,["AudioNode for Feedback2<N, X, Y, U>","fn allocate"],"        self.y.allocate();\n","")),
m("fb2-ping","P20",(FB,["AudioNode for Feedback2<N, X, Y, U>","fn ping"],"self.y.ping(probe, self.x.ping(probe, hash.hash(Self::ID)))","self.x.ping(probe, hash.hash(Self::ID))")),
m("fbu-size-le","P18",(FB,"if size <= self.samples {","if size <= self.samples + 1 {")),
m("fbu-pow2","P18",(FB,"let feedback_samples = self.samples.next_power_of_two();","let feedback_samples = core::cmp::max(self.samples - 1, 1).next_power_of_two();")),
m("fbu-round","P18",(FB,"round(self.delay * sample_rate).max(1.0)","floor(self.delay * sample_rate).max(1.0)")),
m("fbu-sr-clear","P04",(FB,["for FeedbackUnit","fn set_sample_rate"],"                feedback.fill(0.0);\n","")),
m("fbu-sr-index","P04",(FB,["for FeedbackUnit","fn set_sample_rate"],"            self.index = 0;\n","")),
m("fbu-reset-x","P02",(FB,["for FeedbackUnit","fn reset"],"        self.x.reset();\n","")),
m("fbu-chan","P18",(FB,["for FeedbackUnit","fn tick"],"self.feedback[channel][read_i];","self.feedback[channel & 1][read_i];")),
m("fbu-alloc","P11",(FB,["for FeedbackUnit","fn allocate"],"self.x.allocate();","")),
m("fbu-ping","P20",(FB,["for FeedbackUnit","fn ping"],"self.x.ping(probe, hash.hash(self.get_id()))","let _ = probe; hash.hash(self.get_id())")),
# oversample etc
m("over-sr","P04",(OV,["for Oversampler<X>","fn set_sample_rate"],"let inner_sr = sample_rate * 2.0;","let inner_sr = sample_rate;")),
m("over-reset-in","P02",(OV,["for Oversampler<X>","fn reset"],"        self.inv = Frame::default();\n","")),
m("over-reset-out","P02",(OV,["for Oversampler<X>","fn reset"],"        self.outv = Frame::default();\n","")),
m("over-odd","P22",(OV,["fn tick_odd"],"for i in 0..HALFBAND_MIN_LEN / 2 {","for i in 1..HALFBAND_MIN_LEN / 2 {")),
m("over-alloc","P04",(OV,["for Oversampler<X>","fn allocate"],"self.x.allocate();","")),
m("over-clear","P22",(OV,"self.inv[channel][self.j] = 0.0;","if channel == 0 { self.inv[channel][self.j] = 0.0; }")),
m("over-mask","P22",(OV,["self.outv[channel][self.j] = over_output2[channel];"],"self.j = (self.j + 1) & 0x7f;","self.j = (self.j + 1) & 0x3f;")),
m("over-ping","P20",(OV,["for Oversampler<X>","fn ping"],"self.x.ping(probe, hash.hash(Self::ID))","self.x.ping(probe, hash)")),
m("resyn-z","P22",(RS,"z: 2.0 / 3.0,","z: 0.666,")),
m("resyn-hann","P22",(RS,"(i as i32 - (window_length >> 1) as i32) as f32 * f32::TAU\n                        / window_length as f32","(i as i32 - (window_length >> 1) as i32) as f32 * f32::TAU\n                        / (window_length - 1) as f32")),
m("resyn-reset","P02",(RS,["for Resynth<I, O, F>","fn reset"],"self.window[i].reset(i * (self.window_length >> 2));","self.window[i].reset(self.window[i].index());")),
m("resyn-reset-samples","P02",(RS,["for Resynth<I, O, F>","fn reset"],"        self.samples = 0;\n","")),
m("resyn-reset-out","P02",(RS,["pub(crate) fn reset"],"            self.output[channel].fill(Complex32::ZERO);\n","            let _ = channel;\n")),
m("resyn-win-samples","P02",(RS,["pub(crate) fn reset"],"        self.samples = 0;\n","")),
m("resyn-clear","P22",(RS,"                    self.window[i].clear_output();\n","")),
m("resyn-latency","P14",(RS,"Routing::Arbitrary(self.window_length as f64)","Routing::Arbitrary((self.window_length >> 1) as f64)")),
m("resyn-sr","P22",(RS,["for Resynth<I, O, F>","fn set_sample_rate"],"for i in 0..WINDOWS {","for i in 1..WINDOWS {")),
m("resyn-time","P22",(RS,["pub fn time(&self)"],"self.length as u64 >> 1","self.length as u64")),
m("resyn-freq","P22",(RS,["pub fn frequency"],"self.length() as f32","(self.length() + 2) as f32")),
m("resyn-forward","P22",(RS,["pub fn forward(&mut"],"for i in 0..self.bins() {","for i in 0..self.bins() - 1 {")),
m("resyn-fft-ready","P22",(RS,"self.index == 0 && self.samples >= self.length as u64","self.index == 0")),
m("fft-negative","P22",(FF,["pub fn fix_negative"],"conj()","conj() * 1.0 + Complex32::ZERO")),
m("reverb-reset-fb","P02",(RV,["fn reset"],"        self.feedback = 0.0;\n","")),
m("reverb-reset-pre","P02",(RV,["fn reset"],"for x in self.pre.iter_mut() {","for x in self.pre.iter_mut().take(3) {")),
m("reverb-sr-delay","P04",(RV,["fn set_sample_rate"],"            block.delay.set_sample_rate(sample_rate);\n","")),
m("reverb-filter1-sr","P04",(RV,["fn set_sample_rate"],"            block.filter1.set_sample_rate(sample_rate);\n","")),
m("reverb-ping","P20",(RV,["fn ping"],"            hash = block.filter1.ping(probe, hash);\n","")),
m("reverb-a","P26",(RV,"0.035 / time","0.00035 / time")),
m("reverb-leak","P26",(RV,"block.allpass1[0].filter_mono(self.a * v0 + input1)","block.allpass1[0].filter_mono(v0 + input1)")),
m("reverb-alloc","P04",(RV,["fn allocate"],"            block.filter1.allocate();\n","")),
m("resample-reset-cons","P02",(RE,["fn reset"],"        self.consumer = 1.0;\n","")),
m("resample-neg","P22",(RE,"max(0.0, input[0]).to_f64()","input[0].abs().to_f64()")),
m("resample-lookahead","P22",(RE,"while consumer_i + 2 >= self.producer {","while consumer_i + 1 >= self.producer {")),
m("resample-fast","P22",(RE,["self.buffer[channel][self.producer & 0x7f]"],"self.producer += 1;","self.producer += 1; if self.producer > consumer_i + 96 { break; }")),
m("resample-ping","P20",(RE,["fn ping"],"self.x.ping(probe, hash.hash(Self::ID))","let _ = probe; hash.hash(Self::ID)")),
m("resample-alloc","P04",(RE,["fn allocate"],"self.x.allocate();","")),
]
