#!/usr/bin/env python3
"""Single source for properties.jsonl (regenerates it; run after editing)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("P01","Ticking and block processing render the same stream",
 "For every opcode, combinator, adapter, Net and Sequencer, the output produced through any mixture of single-sample tick() calls and process() blocks of 0 to 64 samples equals, within rounding, the output of ticking alone on the same input. Nothing read depends on buffer lanes beyond the requested size, and every one of the requested output samples is written. Units documented as block-granular (update/System control callbacks, granular synthesis) and wavetable table selection under frequency changes inside one SIMD item are outside the claim.",
 ["programs","inputs","configurations"],"all graphs, all input signals, all partitions of a stream into ticks and blocks, all sample rates",
 "Tests compare tick and process for a handful of graphs with one block layout; the state carried across odd block sizes, SIMD remainders and interleaved ticks multiplies over every node type and composition.",
 ["src/audionode.rs","src/audiounit.rs","src/combinator.rs","src/net.rs","src/sequencer.rs","src/svf.rs","src/oscillator.rs","src/noise.rs","src/buffer.rs"],
 [("AudioNode::tick/process of every node","src/audionode.rs and all component modules"),("process_remainder","src/audionode.rs"),("AudioUnit for An / Net / Sequencer / BlockRateAdapter / BigBlockAdapter","src/combinator.rs, src/net.rs, src/sequencer.rs, src/audiounit.rs")],
 None,["outputs of AudioUnit::tick and AudioUnit::process"])
p("P02","reset() returns a unit to its initial state",
 "After any use of a unit, reset() makes it render the same output stream, for the same following input, as an identically configured unit that has never been used. This holds for every opcode and for every graph built from them, including Net, Sequencer and Slot containers. State that lives outside the unit (Shared variables, ring buffers, monitors) and control callbacks of update() are outside the claim.",
 ["programs","histories","inputs"],"all units, all prior usage histories, all following inputs",
 "A leak of state through reset shows only after particular use of a particular component; the tests reset a few components once.",
 ["src/audionode.rs","src/combinator.rs","src/wavetable.rs","src/noise.rs","src/dynamics.rs","src/reverb.rs","src/shape.rs","src/adsr.rs","src/net.rs"],
 [("reset of every node and container","all component modules")],None,["outputs after reset"])
p("P03","A clone continues identically and independently",
 "A clone of a unit taken at any moment renders the same continuation as its original for the same input, and using, resetting or reconfiguring either one never changes what the other renders. Only the documented sharing devices (Shared, Var, Timer, Monitor, Snoop and Ring ends, backends of one frontend) connect clones.",
 ["programs","histories"],"all units, all moments of cloning, all interleavings of use of the two copies",
 "Hidden aliasing through shared pointers or incomplete Clone implementations depends on the component and on when the clone is made.",
 ["src/audionode.rs","src/combinator.rs","src/net.rs","src/vertex.rs","src/sequencer.rs","src/feedback.rs","src/resample.rs","src/wave.rs"],
 [("Clone of nodes, Net, Vertex, Sequencer, Wave","all component modules"),("dyn_clone of AudioUnit","src/audiounit.rs")])
p("P04","Lifecycle calls reach every contained unit",
 "Every combinator, adapter and container forwards set_sample_rate, reset, allocate and the deterministic-phase ping to each unit it contains, whatever the nesting, so contained units run at the rate of the context they run in (an oversampler's inner unit at twice the outer rate, a resampler's inner unit at the outer rate). The final rate alone matters: setting one rate and then another is equivalent to setting the second one directly.",
 ["programs","configurations","histories"],"all nestings of containers, all sequences of lifecycle calls, all sample rates",
 "Each wrapper forwards each call by hand; a missed forward is audible only in the particular nesting and only when the default rate is not used.",
 ["src/audionode.rs","src/combinator.rs","src/net.rs","src/vertex.rs","src/sequencer.rs","src/slot.rs","src/feedback.rs","src/oversample.rs","src/resample.rs","src/system.rs","src/audiounit.rs"],
 [("set_sample_rate/reset/allocate/ping forwarding","every container")],None,["calls received by a probe node inside the container; rendered output at the final rate"])
p("P05","Graph operators implement their documented algebra",
 "The operators and their functional forms (pipe >>, bus &, branch ^, stack |, sum +, difference -, product *, negation, thru !, and the indexed and multi-unit forms pipei, busi, stacki, branchi, sumi, pipef, busf, stackf, branchf, sumf, join, split, multijoin, multisplit, reverse, pass, sink, multipass, map, feedback) produce exactly the arity and the sample-by-sample output that their documented definition assigns to the outputs of the operands. Operators on constants apply to every channel, and the hacker, hacker32 and prelude environments give the same signal for the same expression.",
 ["programs","inputs"],"all operand units and arities, all input signals",
 "Operator semantics compose; tests sample a few shapes, while SIMD, scalar and dynamic paths exist for each operator.",
 ["src/audionode.rs","src/combinator.rs","src/prelude.rs","src/hacker.rs","src/hacker32.rs"],
 [("Pipe, Stack, Branch, Bus, Binop, Unop, Thru, Chain, MultiStack, MultiBus, MultiBranch, Reduce","src/audionode.rs"),("operator overloads","src/combinator.rs")])
p("P06","A Net computes the graph its edit history describes",
 "After any sequence of Net edits (push, chain, connect, connect_input, connect_output, pipe_input, pipe_output, pass_through, disconnect, set_source, set_output_source, replace, remove, remove_link, set_sample_rate, and the Net operators >> | & ^ + - * ! and negation with Nets or scalars) the Net renders, sample for sample, what a direct interpretation of the resulting graph renders, in an order that respects every connection. Queries (inputs, outputs, inputs_in, outputs_in, contains, size, ids, source, output_source, node) report exactly that graph, node IDs stay valid and unique until removal, and a cycle is reported by error() while removing the cycle clears the error.",
 ["histories","programs","inputs"],"all edit sequences and all input streams",
 "Edit histories are unbounded; tests apply a few fixed sequences. Ordering, link rewiring on removal and port translation depend on the history.",
 ["src/net.rs","src/vertex.rs"],
 [("edit operations","src/net.rs"),("determine_order / propagate cycle error","src/net.rs"),("source vertex copying","src/vertex.rs"),("binary operators","src/net.rs")])
p("P07","Live Net edits reach the backend whole, in order, without losing state",
 "A Net backend renders, at every block, exactly the graph of the latest commit received, never a partial edit; nodes untouched by the edits keep their internal state without glitch across commits, new or replaced nodes start fresh at the network's sample rate (that of the frontend at the commit), and a crossfade mixes old and new unit with complementary weights over the requested time before the new unit alone remains. Settings sent with set() or edits sent before the backend's next block are applied exactly once. This holds whatever the timing of frontend and backend threads, as long as the message channel (1024 messages) is not overrun.",
 ["histories","schedules"],"all edit/commit/render interleavings, sequential and concurrent",
 "The outcome depends on which node versions exist on each side at the moment of a commit and on thread timing.",
 ["src/net.rs","src/realnet.rs","src/vertex.rs"],
 [("commit / migrate","src/net.rs"),("NetBackend::handle_messages","src/realnet.rs"),("crossfade in Vertex::tick/process","src/vertex.rs")])
p("P08","Sequencer renders every event at its exact time",
 "A Sequencer's output at each sample is the sum, over all events whose interval contains that sample's time, of the event unit's output times its fade-in and fade-out curve, where each unit is ticked once per active sample starting from its first active sample. Events pushed relatively are placed relative to the current time, edits of end time and fade-out apply to the right event, events in the past are ignored, and replayable sequencers restart all events on reset. The result does not depend on push order or block layout.",
 ["histories","inputs"],"all event lists, edit times, block layouts and sample rates",
 "Events interact through priority queues and per-block bookkeeping, so errors need particular coincidences of event boundaries, block boundaries and edits.",
 ["src/sequencer.rs"],
 [("push/edit/ready_to_active/past handling","src/sequencer.rs"),("fade_in/fade_out","src/sequencer.rs")])
p("P09","Sequencer backend renders what the frontend pushed, once",
 "With a backend attached, events pushed, edited or repeated through the frontend are rendered by the backend exactly once, exactly as the same calls on a plain Sequencer at the same time would be, and events finished on the backend are returned and not replayed twice. This holds for every timing of frontend calls relative to the backend's blocks, including real threads.",
 ["histories","schedules"],"all interleavings of frontend calls and backend blocks",
 "Depends on message timing between two threads.",
 ["src/sequencer.rs","src/realseq.rs"],
 [("Sequencer::backend / Message","src/sequencer.rs, src/realseq.rs")])
p("P10","Slot replaces units by a faithful crossfade",
 "A Slot backend renders its current unit unchanged until a replacement arrives, then a crossfade whose weights follow the selected fade curve over the requested time (a length of one sample more or less is within rounding), and then the new unit alone; every unit set is eventually rendered in the order it was set, except those superseded while waiting. The new unit starts from its initial state at the backend's sample rate.",
 ["histories","schedules","inputs"],"all set() sequences, fade times, curves, block layouts",
 "Depends on when sets arrive in relation to a running crossfade.",
 ["src/slot.rs"],
 [("SlotBackend::process/tick/next handling","src/slot.rs")])
p("P11","Rendering never allocates or frees memory",
 "Once allocate() has been called, tick(), process(), reset() and set() of every unit, and the processing of Net, Sequencer and Slot backends, perform no heap allocation or deallocation on the audio thread, whatever is being committed, replaced, faded or finished. Components documented to allocate lazily (e.g. when the sample rate changes) only allocate there.",
 ["programs","histories","schedules"],"all units, all backend message histories",
 "A single allocation occurs only in the particular transition (end of fade, queue growth, first use), which output-comparing tests do not see.",
 ["src/realnet.rs","src/realseq.rs","src/slot.rs","src/net.rs","src/vertex.rs","src/sequencer.rs","src/dynamics.rs","src/resample.rs"],
 [("return channels for old units","src/realnet.rs, src/slot.rs, src/realseq.rs"),("allocate()","all nodes")],None,["global allocator on the rendering thread"])
p("P12","No data race, invalid memory access or uninitialised read",
 "Using the safe API with arguments in their documented domain from one or several threads never causes a data race, an out-of-bounds or use-after-free access, or a result that depends on uninitialised memory. This covers the buffer and SIMD views, atomics-based shared variables and tables, and the frontends and backends of Net, Sequencer and Slot running concurrently.",
 ["schedules","inputs","programs"],"all thread interleavings and all in-contract arguments",
 "Unsafe code fails silently under plain tests.",
 ["src/buffer.rs","src/shared.rs","src/net.rs","src/realnet.rs","src/slot.rs","src/sequencer.rs","src/snoop.rs","src/ring.rs"],
 [("unsafe buffer views","src/buffer.rs"),("AtomicTable / Shared","src/shared.rs")])
p("P13","Analytic frequency response matches the rendered signal",
 "For every linear time-invariant unit or graph for which response(channel, frequency) returns a value, that complex value equals, within tolerance, the steady-state gain and phase measured from the unit's rendered impulse response at that frequency and sample rate. Graphs with nonlinear paths report no response (limiter, declick, monitor and oversampler pretend linearity by documentation), and filters have the response of their documented design (cutoff, gain, Q).",
 ["inputs","programs","configurations"],"all linear filters and their compositions, all parameters, frequencies and sample rates",
 "Response and audio code are separate implementations of the same mathematics over a continuous parameter space.",
 ["src/signal.rs","src/svf.rs","src/biquad.rs","src/filter.rs","src/fir.rs","src/moog.rs","src/delay.rs","src/audionode.rs","src/audiounit.rs","src/net.rs"],
 [("route()","all nodes"),("Signal::filter/delay/scale/combine_linear","src/signal.rs"),("AudioUnit::response","src/audiounit.rs")])
p("P14","Reported latency equals the real delay",
 "latency() reports the predelay that lookahead processing introduces, in samples at the current sample rate: a limiter reports its lookahead, a resynthesizer its window length, deliberate delays count as zero. Latencies add along pipes and parallel paths take the minimum, through stacks, buses, branches, operators, Nets and wrappers; units whose outputs depend on no input report none. Wave::filter_latency and Wave::render_latency remove exactly that delay, so the result is aligned with the input.",
 ["programs","configurations","inputs"],"all graphs of latent and instantaneous units, all sample rates",
 "Latency composes over the graph and over rate changes.",
 ["src/signal.rs","src/audiounit.rs","src/audionode.rs","src/wave.rs","src/dynamics.rs","src/fir.rs","src/delay.rs"],
 [("AudioUnit::latency","src/audiounit.rs"),("route()","all nodes"),("render_latency/filter_latency","src/wave.rs")])
p("P15","A setting changes exactly the addressed unit",
 "A Setting delivered through set(), with any address path of left/right, index and node steps, through setting listeners or Net::set, changes the parameter of exactly the addressed unit and leaves every other unit unchanged. After the setting the unit behaves as one constructed with the new parameter (subject to its state), and settings that a unit does not understand are ignored. Units inside feedback, oversampling and resampling wrappers are not addressable, and indices out of range are outside the claim.",
 ["programs","inputs","histories"],"all graph shapes and addresses",
 "Address forwarding is hand written per combinator.",
 ["src/setting.rs","src/audionode.rs","src/combinator.rs","src/net.rs","src/svf.rs","src/filter.rs","src/biquad.rs"],
 [("Setting::left/right/index/node, direction/peel","src/setting.rs"),("set() of combinators and components","src/audionode.rs and all component modules")])
p("P16","Observers and shared variables neither lose, invent nor reorder data",
 "A Shared or Var value read at any time is a value that was written, the latest one in program order; Timer reports elapsed time; Monitor and Meter report the documented statistic of the samples that passed; a Snoop reads exactly the latest samples in order; a Ring delivers every pushed sample exactly once in order until full. All of them pass audio through unchanged and never block the audio side.",
 ["schedules","histories","inputs"],"all interleavings of audio and reader threads",
 "Concurrency between audio and reader.",
 ["src/shared.rs","src/snoop.rs","src/ring.rs","src/dynamics.rs"],
 [("Var/Timer","src/shared.rs"),("SnoopBackend","src/snoop.rs"),("Ring","src/ring.rs"),("Meter/Monitor","src/dynamics.rs")])
p("P17","Wave editing behaves as an array of channels and survives file I/O",
 "A Wave behaves as a rectangular array of f32 samples under every sequence of its operations (set, push, mix, insert/remove channels, resize, append, retain, fade, normalize, render, filter, length/duration/amplitude queries), where filter and render equal ticking the unit at the wave's sample rate. Waves of at least one sample written as 16 or 32 bit WAV can be read back with the same rate, channels, length and samples within the format's resolution, and a failed write is reported as an error.",
 ["histories","inputs","fault_sequences"],"all operation sequences, shapes and sample values; all points where writing fails",
 "Operation histories and edge shapes (zero channels or length, out of range positions) are unbounded; write errors need fault injection.",
 ["src/wave.rs","src/write.rs","src/read.rs"],
 [("Wave methods","src/wave.rs"),("write_wav16/write_wav32","src/write.rs"),("Wave::load","src/read.rs")])
p("P18","Delays, taps and feedback loops are sample exact",
 "delay(t) outputs exactly its input round(t * rate) samples earlier (never fewer than the documented minimum), taps read the interpolated signal at the requested time clamped to their bounds, tick is one sample, and feedback loops add exactly their documented loop delay, so every unit equals its difference equation at every sample including the start-up zeros. Allpass nests, feedback delay networks and multi-tap and multi-channel forms satisfy the same equations.",
 ["inputs","configurations"],"all delay times, modulation signals, rates and block layouts",
 "Off-by-one and wrap-around errors appear only for particular lengths, rates or modulation.",
 ["src/delay.rs","src/feedback.rs","src/audionode.rs"],
 [("Delay, Tap, TapLinear","src/delay.rs"),("Feedback, Feedback2","src/feedback.rs"),("AllNest","src/filter.rs")])
p("P19","Oscillators keep frequency, phase and range",
 "Every oscillator's phase advances by frequency / sample rate per sample for any frequency signal, wraps without drift or discontinuity, starts at the requested initial phase, and stays within its documented output range. Sine, ramp and poly oscillators equal their defining waveform; wavetable oscillators contain only the harmonics of their definition below Nyquist, with the definition's amplitudes and phases but for the mild droop of their interpolator at the highest partials; DSF and plucked string oscillators have the documented partials and pitch.",
 ["inputs","configurations"],"all frequency signals (including zero, negative and changing), phases and rates",
 "Continuous input space with SIMD and scalar variants.",
 ["src/oscillator.rs","src/wavetable.rs"],
 [("Sine, Ramp, PolySaw, PolySquare, PolyPulse, Dsf, Pluck, Rossler, Lorenz","src/oscillator.rs"),("Wavetable/WaveSynth/PhaseSynth/PulseWave","src/wavetable.rs")])
p("P20","Pseudorandom sources are deterministic and well distributed",
 "Noise and randomized-phase components are a deterministic function of graph structure and seed: equal graphs give equal streams, different positions in a graph or different seeds give streams that are uncorrelated sample by sample. White noise is uniform in -1...1 with zero mean, no repetition and flat spectrum, pink and brown noise and the pinking filter have their spectral slopes, hold() samples at its rate with the documented variability, an MLS of n bits visits every nonzero state once per period of 2^n - 1, and the hash helpers stay in range.",
 ["inputs","programs","configurations"],"all seeds, structures and lengths",
 "Statistical and period properties need long runs over many seeds.",
 ["src/noise.rs","src/math.rs","src/audionode.rs","src/lib.rs"],
 [("Noise, Mls, Hold","src/noise.rs"),("AttoHash / ping","src/math.rs, src/audionode.rs"),("rnd1, rnd2, hash1..","src/math.rs")])
p("P21","Dynamics processors respect their envelopes and ceilings",
 "The limiter (with a lookahead of at least two samples) never outputs a magnitude above 1 and delays by its lookahead without amplifying; follow and afollow approach a new level monotonically without overshoot, reaching halfway in the requested response time; declick fades in over its duration and is transparent afterwards; meters report the documented statistic; envelopes interpolate their function between sample points, and ADSR is silent before its first gate, stays in 0...1 and follows its attack, decay, sustain and release stages (release taken from the sustain stage). All hold for any input level and sample rate.",
 ["inputs","configurations"],"all signals, times and sample rates",
 "Level-dependent state machines over continuous signals.",
 ["src/dynamics.rs","src/follow.rs","src/envelope.rs","src/adsr.rs"],
 [("Limiter, Declick, Meter, Monitor","src/dynamics.rs"),("Follow, AFollow","src/follow.rs"),("Envelope, EnvelopeIn","src/envelope.rs"),("adsr_live","src/adsr.rs")])
p("P22","Spectral and resampling processing is faithful",
 "The FFT routines invert each other and match the discrete Fourier transform; resynthesis with an identity spectrum callback reproduces its input delayed by exactly the reported latency, and per-bin scaling scales that band; oversampling runs the enclosed node at twice the rate, is linear, time invariant and transparent in the passband (up to 0.4 times the sample rate) and attenuates images and aliases; resamplers play the inner signal at the requested speed without dropping or duplicating samples.",
 ["inputs","configurations"],"all window lengths, signals, speeds and rates",
 "Overlap-add and ring buffering depend on alignment of block, window and speed.",
 ["src/resynth.rs","src/fft.rs","src/oversample.rs","src/resample.rs"],
 [("Resynth, FftWindow","src/resynth.rs"),("fft helpers","src/fft.rs"),("Oversampler","src/oversample.rs"),("Resampler","src/resample.rs")])
p("P23","Math helpers satisfy their documented contracts",
 "Numeric helpers (clamps, lerps, exponential interpolations and their inverses, dissonance helpers, decibel, midi and frequency conversions, splines, smooth and easing curves, identities of the elementary functions in scalar and SIMD form, hashes, pseudorandom helpers, low frequency wave shapes and noise functions) satisfy their documented identities, ranges, monotonicity and inverse relations on their whole documented domain in both f32 and f64.",
 ["inputs"],"the whole documented numeric domain",
 "Real-valued domain with both precisions; tests sample few points.",
 ["src/math.rs","src/lib.rs","src/sound.rs"],
 [("math functions","src/math.rs"),("Float/Real traits","src/lib.rs")])
p("P24","Mixing, panning and shaping follow their documented transfer",
 "pan and panner distribute a signal with equal power and exact position, mixing and rotation matrices, dc, add, sub, mul, clip, shape functions and limits apply the documented function to every sample and channel, and stateless shapes are memoryless and identical in the scalar and SIMD paths.",
 ["inputs","configurations"],"all sample values, parameters and channel counts",
 "Scalar and SIMD implementations over continuous input.",
 ["src/pan.rs","src/shape.rs","src/audionode.rs","src/prelude.rs"],
 [("Panner, Mixer","src/pan.rs"),("Shape implementations","src/shape.rs")])
p("P25","Audio buffers address every sample consistently",
 "BufferArray, BufferVec, BufferRef and BufferMut address one logical channels x 64 sample store: a value written through any accessor (scalar, SIMD, channel slice, tick frame, subset, join/split view) is what every other accessor of the same channel and index reads, and no accessor touches any other channel or index. Clearing, resizing and copying affect exactly the documented range.",
 ["inputs","histories"],"all channel counts, indices and accessor sequences",
 "Accessor pairs and offsets multiply; unsafe reinterpretation is involved.",
 ["src/buffer.rs"],
 [("BufferRef/BufferMut/BufferArray/BufferVec","src/buffer.rs")])
p("P26","Stable filters and effects stay bounded and finite",
 "For bounded input and documented parameters, including silence, denormals, full scale and frequencies from a hertz up to Nyquist, every filter, delay effect, reverb, oscillator and dynamics unit produces finite output that stays bounded and forgets its input after the input ends (reverbs at about their reverberation time; self-oscillating Moog filters aside). The state variable, one pole and allpass filters, delays, oscillators and shapers stay so under arbitrary abrupt parameter changes; direct form biquads, resonators and chaotic oscillators for parameters that stay put. Nothing panics or overflows an index or counter.",
 ["inputs","configurations","histories"],"all bounded inputs, parameter trajectories and run lengths",
 "Blow-ups need particular parameter/state combinations or long runs.",
 ["src/svf.rs","src/biquad.rs","src/moog.rs","src/filter.rs","src/reverb.rs","src/feedback.rs","src/oscillator.rs"],
 [("filters and feedback structures","src/svf.rs, src/biquad.rs, src/moog.rs, src/reverb.rs")])
sel=None
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
