A="src/audionode.rs"; AU="src/audiounit.rs"; C="src/combinator.rs"; SI="src/signal.rs"; PR="src/prelude.rs"; H="src/hacker.rs"; H2="src/hacker32.rs"; G="src/granular.rs"
def m(i,p,*e): return dict(id=i,property=p,edits=list(e))
BUGS=[
m("big-offset","P01",(AU,["fn process_big"],"input[input_i][i + j]","input[input_i][if i > 0 { i + j - 1 } else { j }]")),
m("big-max","P01",(AU,["fn process_big"],"min(size - i, MAX_BUFFER_SIZE)","min(size - i, MAX_BUFFER_SIZE - 1)")),
m("big-ping","P04",(AU,["AudioUnit for BigBlockAdapter","fn ping"],"self.source.ping(probe, hash)","{ let _ = probe; hash }")),
m("big-alloc","P04",(AU,["AudioUnit for BigBlockAdapter","fn allocate"],"self.source.allocate();","")),
m("big-set","P15",(AU,["AudioUnit for BigBlockAdapter","fn set("],"self.source.set(setting);","let _ = setting;")),
m("big-sr","P04",(AU,["AudioUnit for BigBlockAdapter","fn set_sample_rate"],"self.source.set_sample_rate(sample_rate);","let _ = sample_rate;")),
m("brate-reset","P02",(AU,["AudioUnit for BlockRateAdapter","fn reset"],"        self.index = MAX_BUFFER_SIZE;\n","")),
m("brate-index","P01",(AU,["AudioUnit for BlockRateAdapter","fn process"],"            self.index += n;\n","            self.index = (self.index + n + 7) & !7;\n")),
m("brate-sr","P04",(AU,["AudioUnit for BlockRateAdapter","fn set_sample_rate"],"self.unit.set_sample_rate(sample_rate);","let _ = sample_rate;")),
m("brate-ping","P04",(AU,["AudioUnit for BlockRateAdapter","fn ping"],"self.unit.ping(probe, hash)","{ let _ = probe; hash }")),
m("brate-set","P15",(AU,["AudioUnit for BlockRateAdapter","fn set("],"self.unit.set(setting);","let _ = setting;")),
m("brate-route","P14",(AU,["AudioUnit for BlockRateAdapter","fn route"],"self.unit.route(input, frequency)","Routing::Generator(0.0).route(input, self.outputs())")),
m("unit-reset","P04",(AU,["AudioNode for Unit<I, O>","fn reset"],"self.unit.reset();","")),
m("unit-ping","P04",(AU,["AudioNode for Unit<I, O>","fn ping"],"self.unit.ping(probe, hash)","{ let _ = probe; hash }")),
m("unit-alloc","P04",(AU,["AudioNode for Unit<I, O>","fn allocate"],"self.unit.allocate();","")),
m("unit-route","P13",(AU,["AudioNode for Unit<I, O>","fn route"],"self.unit.route(input, frequency)","self.unit.route(input, frequency * 1.01)")),
m("an-route","P13",(AU,["AudioUnit for An<X>","fn route"],"frequency)","frequency * 1.001)")),
m("an-alloc","P04",(AU,["AudioUnit for An<X>","fn allocate"],"self.0.allocate();","")),
m("get-mono-avg","P05",(AU,["fn get_mono"],"(output[0] + output[1]) * 0.5","output[0]")),
m("get-stereo-dup","P05",(AU,["fn get_stereo"],"(output[0], output[0])","{ let l = output[0]; self.tick(&[], &mut output); (l, output[0]) }")),
m("filter-stereo-swap","P05",(AU,["fn filter_stereo"],"(output[0], output[1])","(output[1], output[0])")),
m("node-get-mono","P05",(A,["fn get_mono"],"(output[0] + output[1]) / f32::new(2)","output[1]")),
m("response-db","P13",(AU,["fn response_db"],"amp_db(r.norm())","amp_db(r.norm_sqr())")),
m("node-response-out","P13",(A,["fn response(&mut self"],"match response.at(output) {","match response.at(0) {")),
m("au-latency-last","P14",(AU,["fn latency"],"(Some(r), Signal::Latency(x)) => result = Some(r.min(x)),","(Some(_), Signal::Latency(x)) => result = Some(x),")),
m("sig-value-resp","P13",(SI,["fn combine_linear"],"Signal::Response(response(rx, Complex64::new(0.0, 0.0)), lx + latency)","Signal::Response(rx, lx + latency)")),
m("sig-resp-min","P14",(SI,["fn combine_linear"],"Signal::Response(response(rx, ry), min(lx, ly) + latency)","Signal::Response(response(rx, ry), lx + latency)")),
m("sig-resp-lat","P13",(SI,["fn combine_linear"],"            (Signal::Response(_, lx), Signal::Latency(ly)) => {\n                Signal::Latency(min(lx, ly) + latency)","            (Signal::Response(rx, lx), Signal::Latency(ly)) => {\n                Signal::Response(rx, min(lx, ly) + latency)")),
m("sig-split","P13",(SI,["Routing::Split =>"],"input.at(i % input.len())","input.at(i * input.len() / outputs)")),
m("sig-join-idx","P13",(SI,["Routing::Join =>"],"input.at(i + j * outputs)","input.at(i * bundle + j)")),
m("sig-join-scale","P13",(SI,["Routing::Join =>"],"combo.scale(output.len() as f64 / input.len() as f64)","combo")),
m("sig-rev","P13",(SI,["Routing::Reverse =>"],"input.at(input.len() - 1 - i)","input.at(i)")),
m("sig-arb-first","P14",(SI,["Routing::Arbitrary(latency) =>"],"for i in 1..input.len() {","for i in 1..min(2, input.len()) {")),
m("sig-gen","P14",(SI,["Routing::Generator(latency) =>"],"Signal::Latency(*latency)","Signal::Latency(0.0 * *latency)")),
m("phase-noreset","P19",(C,["pub fn phase("],"        self.reset();\n","")),
m("seed-noreset","P20",(C,["pub fn seed("],"        self.reset();\n","")),
m("phase-right","P19",(C,["pub fn phase("],"Setting::phase(phase).right()","Setting::phase(phase)")),
m("seed-left","P20",(C,["pub fn seed("],"Setting::seed(seed).left()","Setting::seed(seed)")),
m("f32-sub","P05",(C,["impl<X> Sub<An<X>> for f32"],"FrameNegAddScalar::new(self)","FrameNegAddScalar::new(-self)")),
# prelude definitions
m("chorus-sep","P18",(PR,["pub fn chorus"],"separation * 3.0 + variation,","separation * 3.0,")),
m("chorus-gain","P18",(PR,["pub fn chorus"],"* dc(0.2)","* dc(0.25)")),
m("flanger-fb","P18",(PR,["pub fn flanger"],"shape(Tanh(feedback_amount))","mul(feedback_amount)")),
m("flanger-dry","P18",(PR,["pub fn flanger"],"(pass() | lfo(delay_f)) >> tap(minimum_delay, maximum_delay)","(pass() | lfo(delay_f)) >> tap(minimum_delay * 1.05, maximum_delay)")),
m("phaser-range","P18",(PR,["pub fn phaser"],"clamp01(phase_f(t))","phase_f(t)")),
m("phaser-stages","P18",(PR,["pub fn phaser"],"pipei::<U10","pipei::<U9")),
m("reverb-damp","P26",(PR,["pub fn reverb_stereo"],"0.03 * room_size / 10.0 / time","0.03 / time")),
m("reverb2-time","P26",(PR,["pub fn reverb2_stereo"],"0.5 * delay_min / time","0.5 * delay_min * time")),
m("reverb4-time","P26",(PR,["pub fn reverb4_stereo_delays"],"0.03 * room_size / 10.0 / time","0.03 * room_size / time")),
m("h32-highshelf","P05",(H2,["pub fn highshelf_q"],"super::prelude::highshelf_q(q, gain)","super::prelude::highshelf_q(gain, q)")),
m("p-highshelf","P13",(PR,["pub fn highshelf_q"],"dc((q.to_f32(), gain.to_f32()))","dc((gain.to_f32(), q.to_f32()))")),
m("p-lowshelf-hz","P13",(PR,["pub fn lowshelf_hz"],"            q,\n            gain,","            q: gain,\n            gain: q,")),
m("p-fbell-hz","P13",(PR,["pub fn fbell_hz"],"center, q, gain","center, gain, q")),
m("p-dlowpass-hz","P13",(PR,["pub fn dlowpass_hz"],"cutoff, q","q, cutoff")),
m("h-afollow","P21",(H,["pub fn afollow"],"attack_time as f64, release_time as f64","release_time as f64, attack_time as f64")),
m("p-afollow","P21",(PR,["pub fn afollow"],"AFollow::new(attack_time, release_time)","AFollow::new(release_time, attack_time)")),
m("h-limst","P21",(H,["pub fn limiter_stereo"],"attack_time, release_time","release_time, attack_time")),
m("p-clipto","P24",(PR,["pub fn clip_to"],"ClipTo(minimum, maximum)","ClipTo(-maximum, maximum)")),
m("h-rotate","P24",(H,["pub fn rotate"],"-sin(angle) * gain","sin(angle) * gain")),
m("h32-rotate","P05",(H2,["pub fn rotate"],"-sin(angle) * gain","-sin(angle)")),
m("p-holdhz","P20",(PR,["pub fn hold_hz"],"hold(variability)","hold(0.0 * variability)")),
m("h-dsfsq","P19",(H,["pub fn dsf_square_r"],"Dsf::new(2.0, roughness)","Dsf::new(1.0, roughness)")),
m("p-brown","P20",(PR,["pub fn brown"],"lowpole_hz::<F>(F::from_f64(10.0))","lowpole_hz::<F>(F::from_f64(100.0))")),
m("h-brown","P20",(H,["pub fn brown"],"lowpole_hz(10.0)","lowpole_hz(40.0)")),
m("h-lfo2","P21",(H,["pub fn lfo2"],"0.002","0.004")),
m("h-declicks","P21",(H,["pub fn declick_s"],"Declick::new(t as f64)","Declick::new(0.5 * t as f64)")),
m("h-declickdef","P21",(H,["pub fn declick()"],"0.010","0.02")),
m("h-dcblock","P13",(H,["pub fn dcblock()"],"10.0","20.0")),
m("p-busf","P05",(PR,["pub fn busf"],"(N::USIZE - 1) as f64","N::USIZE as f64")),
m("p-stackf","P05",(PR,["pub fn stackf"],"(N::USIZE - 1) as f64","N::USIZE as f64")),
m("p-fir3","P13",(PR,["pub fn fir3"],"(1.0 - alpha) / 2.0","(1.0 - alpha) / 4.0")),
m("p-waveloop","P17",("src/wave.rs",["AudioNode for WavePlayer"],"self.index = point;","self.index = point + 1;")),
m("p-sumi","P05",(PR,["pub fn sumi"],"f(i as u64)","f((i as u64).min(6))")),
m("p-timer","P16",("src/shared.rs",["AudioNode for Timer","fn process"],"size as f64 * self.sample_duration","(size & !7) as f64 * self.sample_duration")),
m("gran-next","P08",(G,"self.voices[voice].next_time = t + grain_length as f64 - envelope_length as f64;","self.voices[voice].next_time = t + grain_length as f64;")),
m("gran-reset","P08",(G,["fn reset"],"        self.time = 0.0;\n","")),
m("gran-offset","P08",(G,"                    / self.voices.len() as f64;","                    / (self.voices.len() - 1) as f64;")),
m("gran-sr","P08",(G,["fn set_sample_rate"],"self.sequencer.set_sample_rate(sample_rate);","")),
m("gran-env","P08",(G,"            Fade::Power,\n            envelope_length as f64,\n            envelope_length as f64,","            Fade::Power,\n            envelope_length as f64,\n            0.5 * envelope_length as f64,")),
]
