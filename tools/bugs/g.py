A="src/audionode.rs"; N="src/net.rs"; R="src/realnet.rs"; S="src/sequencer.rs"; Q="src/realseq.rs"
BUGS=[
dict(id="pinkpass-reset-keeps-tap",property="P02",edits=[("src/filter.rs",["AudioNode for Pinkpass<F>","fn reset"],"        self.b6 = F::zero();\n","")],
 needs="reset after the filter has been fed a nonzero last sample",
 breaks="the first sample after reset still contains the last input from before it",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut p = pinkpass();
    let fresh: Vec<f32> = (0..20).map(|_| pinkpass().filter_mono(0.0)).collect();
    for i in 0..100 { p.filter_mono((i as f32).sin() + 2.0); }
    p.reset();
    let again: Vec<f32> = (0..20).map(|_| p.filter_mono(0.0)).collect();
    println!("{:?}", again);
    assert_eq!(fresh, again);
}
'''),
dict(id="feedback2-rate-not-forwarded",property="P04",edits=[("src/feedback.rs",["AudioNode for Feedback2<N, X, Y, U>","fn set_sample_rate"],"        self.y.set_sample_rate(sample_rate);\n","")],
 needs="feedback2 with a rate dependent node in its feedback path, at a rate other than the default",
 breaks="the feedback path runs at the old sample rate, so its delay is wrong",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut f = feedback2(pass(), delay(0.01));
    f.set_sample_rate(88200.0);
    let y: Vec<f32> = (0..2000).map(|i| f.filter_mono(if i == 0 { 1.0 } else { 0.0 })).collect();
    let at: Vec<usize> = (1..2000).filter(|i| y[*i] != 0.0).collect();
    println!("{:?}", at);
    assert!((at[0] as i32 - 882).abs() <= 2);
}
'''),
dict(id="net-remove-misses-later-edges",property="P06",edits=[(N,["fn remove_2"],"for vertex in 0..self.size() - 1 {\n                for channel","for vertex in 0..last_index - 1 {\n                for channel")],
 needs="removing a node when the last node of the net feeds the next to last one",
 breaks="an edge from the node that is moved is not updated, so another node reads the wrong source",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut net = Net::new(0, 1);
    let a = net.push(Box::new(dc(3.0)));
    let _b = net.push(Box::new(dc(5.0)));
    let c = net.push(Box::new(mul(10.0)));
    let d = net.push(Box::new(dc(7.0)));
    net.connect(d, 0, c, 0);
    net.pipe_output(c);
    net.remove(a);
    let mut o = [0.0];
    net.tick(&[], &mut o);
    println!("{}", o[0]);
    assert_eq!(o[0], 70.0);
}
'''),
dict(id="net-backend-drops-replaced-net",property="P11",edits=[(R,["fn handle_messages"],"""                    if self
                        .sender
                        .as_ref()
                        .unwrap()
                        .try_send(NetReturn::Net(net))
                        .is_ok()
                    {}""","                    drop(net);")],
 needs="a commit while the backend renders",
 breaks="the previous network is deallocated in the audio thread",
 main=r'''use fundsp::hacker32::*;
use std::sync::atomic::{AtomicBool, Ordering};
static HOT: AtomicBool = AtomicBool::new(false);
static BAD: AtomicBool = AtomicBool::new(false);
#[derive(Clone)]
struct Tell;
impl Drop for Tell {
    fn drop(&mut self) { if HOT.load(Ordering::SeqCst) { BAD.store(true, Ordering::SeqCst); } }
}
fn main() {
    let mut net = Net::new(0, 1);
    let t = Tell;
    let id = net.push(Box::new(envelope(move |x| { let _ = &t; x })));
    net.pipe_output(id);
    let mut back = net.backend();
    let mut o = [0.0];
    for i in 0..10 {
        net.push(Box::new(dc(i as f32)));
        net.commit();
        HOT.store(true, Ordering::SeqCst);
        for _ in 0..10 { back.tick(&[], &mut o); }
        HOT.store(false, Ordering::SeqCst);
    }
    assert!(!BAD.load(Ordering::SeqCst));
}
'''),
dict(id="bell-ignores-new-q",property="P13",edits=[("src/svf.rs",["for BellMode<F>","fn update_inputs"]," || q != params.q","")],
 needs="a bell filter whose Q input changes while center and gain inputs stay the same",
 breaks="the filter keeps the old Q",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut a = bell();
    let mut b = bell();
    let mut worst = 0.0f32;
    for i in 0..1000 {
        let x = (i as f32 * 0.3).sin();
        let q = if i < 500 { 1.0 } else { 8.0 };
        // The second filter is told of the change by an inaudible change of center.
        let c = if i < 500 { 1000.0 } else { 1000.001 };
        let y = a.tick(&[x, 1000.0, q, 4.0].into());
        let z = b.tick(&[x, c, q, 4.0].into());
        worst = worst.max((y[0] - z[0]).abs());
    }
    println!("{}", worst);
    assert!(worst < 1e-3);
}
'''),
dict(id="product-latency-is-maximum",property="P14",edits=[(A,["for FrameMul<N>","fn route"],"(Signal::Latency(lx), Signal::Latency(ly)) => Signal::Latency(min(lx, ly))","(Signal::Latency(lx), Signal::Latency(ly)) => Signal::Latency(max(lx, ly))")],
 needs="latency of a product of two signals of different latency",
 breaks="latency is reported as the greater of the two, so the beginning of the signal would be cut off",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut x = (pass() >> shape(Tanh(1.0))) * (limiter(0.01, 0.1) >> shape(Tanh(1.0)));
    println!("{:?}", x.latency());
    assert_eq!(x.latency(), Some(0.0));
}
'''),
dict(id="setting-address-order",property="P15",edits=[("src/setting.rs","self.address.remove(0);","self.address.swap_remove(0);")],
 needs="a setting with an address of three or more levels that are not all the same",
 breaks="the setting ends up at another node",
 main=r'''use fundsp::hacker32::*;
fn main() {
    // left, right, left
    let mut x = (dc(1.0) | (dc(2.0) | dc(3.0))) | dc(4.0);
    let mut y = x.clone();
    y.set(Setting::value(9.0).left().right().left());
    let (a, b) = (x.get_mono_all(), y.get_mono_all());
    println!("{:?} {:?}", a, b);
    assert_eq!(b, vec![1.0, 9.0, 3.0, 4.0]);
}
trait All { fn get_mono_all(&mut self) -> Vec<f32>; }
impl<T: AudioUnit> All for T {
    fn get_mono_all(&mut self) -> Vec<f32> { let mut o = vec![0.0; self.outputs()]; self.tick(&[], &mut o); o }
}
'''),
dict(id="feedback2-block-order",property="P18",edits=[("src/feedback.rs",["AudioNode for Feedback2<N, X, Y, U>","fn process"],"self.value = self.feedback.frame(&self.y.tick(&output_frame));","let _y = self.feedback.frame(&output_frame); self.value = self.y.tick(&_y);")],
 needs="feedback2 with a mixing operator and different channels in its feedback path, rendered in blocks",
 breaks="in blocks the feedback operator is applied before the feedback path instead of after it",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let n = || fundsp::prelude::An(fundsp::feedback::Feedback2::new(
        multipass::<U2>().0, (mul(0.9) | mul(0.1)).0, fundsp::feedback::FrameHadamard::<U2>::new()));
    let (mut a, mut b) = (n(), n());
    let mut i = BufferVec::new(2);
    let mut o = BufferVec::new(2);
    for k in 0..64 { i.set_f32(0, k, (k as f32).sin()); i.set_f32(1, k, (k as f32).cos()); }
    b.process(64, &i.buffer_ref(), &mut o.buffer_mut());
    for k in 0..64 {
        let y = a.tick(&[i.at_f32(0, k), i.at_f32(1, k)].into());
        println!("{} {}", y[0], o.at_f32(0, k));
        assert!((y[0] - o.at_f32(0, k)).abs() < 1e-4 && (y[1] - o.at_f32(1, k)).abs() < 1e-4);
    }
}
'''),
dict(id="wavetable-hint-too-wide",property="P19",edits=[("src/wavetable.rs","frequency <= self.table[table_hint + 1].0","frequency <= self.table[table_hint + 2].0")],
 needs="a frequency that rises slightly past the pitch range of the table in use",
 breaks="the table of the lower pitch is kept, so the output has other partials than one started at that frequency",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let t = fundsp::wavetable::saw_table();
    let mut worst = 0.0f32;
    for k in 0..1000 {
        let f = 30.0 * 1.005f32.powi(k);
        for j in 0..16 {
            let p = j as f32 / 16.0 + 0.01;
            let h = t.read(0, f * 0.9, p).1;
            worst = worst.max((t.read(h, f, p).0 - t.read(0, f, p).0).abs());
        }
    }
    println!("{}", worst);
    assert!(worst < 1e-4);
}
'''),
dict(id="feedback2-inner-noise-unseeded",property="P20",edits=[("src/feedback.rs",["AudioNode for Feedback2<N, X, Y, U>","fn ping"],"self.y.ping(probe, self.x.ping(probe, hash.hash(Self::ID)))","self.x.ping(probe, hash.hash(Self::ID))")],
 needs="a noise source inside the feedback path of feedback2, twice in a graph",
 breaks="both copies produce the same noise",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let n = || zero() >> feedback2(mul(1.0), sink() >> noise());
    let mut x = n() | n();
    let mut same = 0;
    for _ in 0..1000 {
        let y = x.tick(&Default::default());
        if y[0] == y[1] && y[0] != 0.0 { same += 1; }
    }
    println!("{}", same);
    assert!(same < 10);
}
'''),
dict(id="softcrush-negative-cell",property="P24",edits=[("src/shape.rs",["Shape for SoftCrush","fn shape"],"let y = floor(x);","let y = libm::truncf(x);")],
 needs="a negative input between two levels",
 breaks="negative values are rounded from the wrong level",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut s = shape(SoftCrush(4.0));
    for i in -400..400 {
        let x = i as f32 * 0.005 + 0.0021;
        let y = s.filter_mono(x);
        println!("{} {}", x, y);
        assert!((x - y).abs() <= 0.126, "further than half a step");
    }
}
'''),
dict(id="ease-noise-negative",property="P23",edits=[("src/math.rs",["pub fn ease_noise"],"let ix = fx.to_i64();","let ix = x.to_i64();")],
 needs="negative coordinates",
 breaks="the noise jumps at negative integers",
 main=r'''use fundsp::hacker32::*;
fn main() {
    for i in -10..10 {
        let (a, b) = (ease_noise(smooth3, 1, i as f64 - 1e-6), ease_noise(smooth3, 1, i as f64 + 1e-6));
        println!("{} {} {}", i, a, b);
        assert!((a - b).abs() < 1e-4);
    }
}
'''),
dict(id="wave-filter-stale-tail",property="P17",edits=[("src/wave.rs",["pub fn filter("],"            input_buffer.clear();\n","")],
 needs="filtering a wave for a duration longer than the wave, whose length is not a multiple of the block size",
 breaks="samples of an earlier block are fed again past the end of the wave",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut w = Wave::new(1, 44100.0);
    for i in 0..100 { w.push(1.0 + i as f32); }
    let f = w.filter(1000.0 / 44100.0, &mut pass());
    for i in 0..f.len() {
        let x = if i < 100 { 1.0 + i as f32 } else { 0.0 };
        assert_eq!(f.at(0, i), x, "at {}", i);
    }
}
'''),
dict(id="chain-order-of-sum",property="P05",edits=[(A,["for Reduce<N, X, B>","fn process"],"self.b.binop(output.at(channel, j), buffer.at(channel, j))","self.b.binop(buffer.at(channel, j), output.at(channel, j))")],
 needs="a reduction with an operator that is not commutative, in blocks",
 breaks="blocks subtract in the wrong order",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let n = || fundsp::prelude::An(Reduce::<U3, _, _>::new([dc(10.0).0, dc(2.0).0, dc(3.0).0].into(), FrameSub::<U1>::new()));
    let y = n().get_mono();
    let mut o = BufferVec::new(1);
    n().process(64, &BufferRef::empty(), &mut o.buffer_mut());
    println!("{} {}", y, o.at_f32(0, 5));
    assert_eq!(y, o.at_f32(0, 5));
}
'''),
dict(id="sequencer-stale-edit",property="P08",edits=[(S,["fn ready_to_active"],"self.edit_map.remove(&ready.id);","")],
 needs="an event edited before it started, edited again while playing, in a sequencer that replays events, then reset",
 breaks="after reset the first edit is applied again",
 main=r'''use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
fn main() {
    let mut s = Sequencer::new(true, 1);
    let id = s.push(0.01, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
    s.edit(id, 0.5, 0.0);
    let mut o = [0.0];
    for _ in 0..1000 { s.tick(&[], &mut o); }
    s.edit(id, 0.1, 0.0);
    let run = |s: &mut Sequencer| { let mut o = [0.0]; let mut n = 0; for _ in 0..44100 { s.tick(&[], &mut o); if o[0] != 0.0 { n += 1; } } n };
    run(&mut s);
    s.reset();
    let n = run(&mut s);
    println!("{}", n);
    assert!((n - 3969i32).abs() <= 2);
}
'''),
dict(id="limiter-block-peak-sign",property="P21",edits=[("src/dynamics.rs","let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, abs(x)));","let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, x));")],
 needs="an asymmetric signal with negative peaks",
 breaks="negative peaks are not limited",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut l = limiter(0.002, 0.02);
    for i in 0..10000 {
        let y = l.filter_mono(if i % 1000 < 500 { -3.0 } else { 0.1 });
        assert!(y.abs() <= 1.0, "{}", y);
    }
}
'''),
dict(id="pan-block-stale",property="P01",edits=[("src/pan.rs",["fn process"],"                self.set_pan(input.at_f32(1, i));\n","                if i & 7 == 0 { self.set_pan(input.at_f32(1, i)); }\n")],
 needs="pan input that changes within a block",
 breaks="blocks update the pan only at every eighth sample",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let (mut a, mut b) = (panner(), panner());
    let mut i = BufferVec::new(2);
    let mut o = BufferVec::new(2);
    for k in 0..64 { i.set_f32(0, k, 1.0); i.set_f32(1, k, (k as f32).sin()); }
    b.process(64, &i.buffer_ref(), &mut o.buffer_mut());
    for k in 0..64 {
        let y = a.tick(&[i.at_f32(0, k), i.at_f32(1, k)].into());
        assert!((y[0] - o.at_f32(0, k)).abs() < 1e-5, "at {}", k);
    }
}
'''),
dict(id="overlap-add-uncleared",property="P22",edits=[("src/resynth.rs","                    self.window[i].clear_output();\n","")],
 needs="a resynthesizer that does not write every output bin in every window",
 breaks="bins left unset keep the spectrum of an earlier window",
 main=r'''use fundsp::hacker32::*;
fn main() {
    // Writes its output in the first windows only.
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut r = resynth::<U1, U1, _>(64, move |w| if n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 10 { for i in 0..w.bins() { w.set(0, i, w.at(0, i)); } });
    let y: Vec<f32> = (0..1000).map(|i| r.filter_mono((i as f32 * 0.3).sin())).collect();
    let late = y[500..].iter().fold(0.0f32, |a, x| a.max(x.abs()));
    println!("{}", late);
    assert!(late < 1e-4);
}
'''),
]
