//! Catalog of fundsp opcodes with random parameters.
use crate::core::*;
use crate::run::Kind::*;
use crate::run::*;
use fundsp::audiounit::*;
use std::sync::Arc;

/// The stream depends on state shared outside the unit.
pub const SHARED: u32 = 1;
/// Output depends on block partition by design.
pub const BLOCKY: u32 = 2;
/// Chaotic / discontinuous: small rounding differences may grow without bound.
pub const CHAOTIC: u32 = 4;
/// Allocates during processing by design.
pub const ALLOCS: u32 = 8;
/// Not linear.
pub const NONLIN: u32 = 16;
/// Single precision phase accumulates rounding error.
pub const DRIFT: u32 = 64;
/// Expensive to construct or run.
pub const HEAVY: u32 = 32;

pub type Unit = Box<dyn AudioUnit>;
pub type Make = fn(&mut Rng, f32) -> Unit;

#[derive(Clone)]
pub struct Entry {
    pub name: &'static str,
    pub env: &'static str,
    pub kinds: Vec<Kind>,
    pub make: Make,
    pub flags: u32,
    /// Relative tolerance multiplier for tick/process comparison.
    pub tol: f64,
}

impl Entry {
    pub fn label(&self) -> String {
        format!("{}::{}", self.env, self.name)
    }
    pub fn inputs(&self) -> usize {
        self.kinds.len()
    }
    /// Build at sample rate `sr`.
    pub fn build(&self, rng: &mut Rng, sr: f64) -> Unit {
        let fm = (sr as f32 * 0.45).min(20000.0);
        let mut u = (self.make)(rng, fm);
        u.set_sample_rate(sr);
        u
    }
    pub fn build_raw(&self, rng: &mut Rng, sr: f64) -> Unit {
        let fm = (sr as f32 * 0.45).min(20000.0);
        (self.make)(rng, fm)
    }
    pub fn stim(&self, rng: &mut Rng, n: usize, sr: f64) -> Chans {
        let fm = (sr as f32 * 0.45).min(20000.0);
        self.kinds
            .iter()
            .map(|k| match k {
                F(lo, hi) => stimulus(rng, F(*lo, hi.min(fm)), n),
                C(lo, hi) => stimulus(rng, C(*lo, hi.min(fm)), n),
                k => stimulus(rng, *k, n),
            })
            .collect()
    }
    pub fn audio_only(&self) -> bool {
        self.kinds.iter().all(|k| *k == A)
    }
}

pub fn test_wave(rng: &mut Rng, channels: usize, len: usize) -> Arc<fundsp::wave::Wave> {
    let mut w = fundsp::wave::Wave::new(0, 44100.0);
    for _ in 0..channels {
        w.push_channel(&audio(rng, len));
    }
    Arc::new(w)
}

pub const FQ: Kind = F(20.0, 20000.0);
pub const QQ: Kind = L(0.2, 10.0);
pub const GG: Kind = L(0.2, 4.0);

#[macro_export]
macro_rules! catalog {
    ($fname:ident, $m:ident, $fl:ty, $path:path) => {
        pub fn $fname() -> Vec<Entry> {
            use $path as env_;
            use env_::*;
            let mut v: Vec<Entry> = vec![];
            macro_rules! e {
                ($name:expr, [$k:expr], $fg:expr, $tol:expr, |$r:ident, $f:ident| $x:expr) => {
                    v.push(Entry {
                        name: $name,
                        env: stringify!($m),
                        kinds: $k.to_vec(),
                        make: |$r: &mut Rng, $f: f32| {
                            let _ = (&$r, &$f);
                            Box::new($x)
                        },
                        flags: $fg,
                        tol: $tol,
                    })
                };
            }
            const N: [Kind; 0] = [];
            // --- sources
            e!("constant", [N], 0, 1.0, |r, _f| constant(r.f(-2.0, 2.0)));
            e!("dc3", [N], 0, 1.0, |r, _f| dc((r.f(-2.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0))));
            e!("zero", [N], 0, 1.0, |r, _f| zero());
            e!("multizero", [N], 0, 1.0, |r, _f| multizero::<U3>());
            e!("sine", [[FQ]], NONLIN, 8.0, |r, _f| sine());
            e!("sine_hz", [N], 0, 8.0, |r, f| sine_hz(r.lf(20.0, f)));
            e!("sine_phase", [[FQ]], NONLIN, 8.0, |r, _f| sine().phase(r.f(0.0, 1.0)));
            e!("ramp", [[F(1.0, 2000.0)]], NONLIN, 1.0, |r, _f| ramp());
            e!("ramp_hz", [N], 0, 1.0, |r, _f| ramp_hz(r.lf(1.0, 2000.0)));
            e!("ramp_phase", [[F(1.0, 2000.0)]], NONLIN, 1.0, |r, _f| ramp().phase(r.f(0.0, 0.9)));
            e!("rossler", [[F(20.0, 1000.0)]], NONLIN, 1.0, |r, _f| rossler());
            e!("lorenz", [[F(20.0, 500.0)]], NONLIN, 1.0, |r, _f| lorenz());
            e!("mls", [N], 0, 1.0, |r, _f| mls());
            e!("mls_bits", [N], 0, 1.0, |r, _f| mls_bits(r.usize(1, 31) as u64));
            e!("mls_seed", [N], 0, 1.0, |r, _f| mls_bits(r.usize(1, 31) as u64).seed(r.u64()));
            e!("noise", [N], 0, 1.0, |r, _f| noise());
            e!("noise_seed", [N], 0, 1.0, |r, _f| noise().seed(r.u64()));
            e!("white", [N], 0, 1.0, |r, _f| white());
            e!("pink", [N], 0, 1.0, |r, _f| pink());
            e!("brown", [N], 0, 1.0, |r, _f| brown());
            e!("impulse", [N], 0, 1.0, |r, _f| impulse::<U2>());
            e!("saw", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| saw());
            e!("square", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| square());
            e!("triangle", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| triangle());
            e!("organ", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| organ());
            e!("soft_saw", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| soft_saw());
            e!("hammond", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| hammond());
            e!("saw_hz", [N], 0, 5000.0, |r, f| saw_hz(r.lf(20.0, f)));
            e!("square_hz", [N], 0, 5000.0, |r, f| square_hz(r.lf(20.0, f)));
            e!("triangle_hz", [N], 0, 5000.0, |r, f| triangle_hz(r.lf(20.0, f)));
            e!("organ_hz", [N], 0, 5000.0, |r, f| organ_hz(r.lf(20.0, f)));
            e!("soft_saw_hz", [N], 0, 5000.0, |r, f| soft_saw_hz(r.lf(20.0, f)));
            e!("hammond_hz", [N], 0, 5000.0, |r, f| hammond_hz(r.lf(20.0, f)));
            e!("saw_phase", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| saw().phase(r.f(0.0, 1.0)));
            // The phase output as a point on the circle, because the phase wraps around.
            e!("wavesynth2", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| {
                let x = fundsp::prelude::An(fundsp::wavetable::WaveSynth::<U2>::new(fundsp::wavetable::organ_table()));
                x >> (pass() | map(|x: &fundsp::Frame<f32, U1>| ((x[0] * 6.2831855).cos(), (x[0] * 6.2831855).sin())))
            });
            e!("saw_negative", [[C(20.0, 20000.0)]], NONLIN, 5000.0, |r, _f| mul(-1.0) >> saw());
            e!("pulse", [[C(20.0, 20000.0), R(0.05, 0.95)]], NONLIN, 5000.0, |r, _f| pulse());
            e!("poly_saw", [[F(20.0, 8000.0)]], NONLIN | CHAOTIC, 4.0, |r, _f| poly_saw());
            e!("poly_square", [[F(20.0, 8000.0)]], NONLIN | CHAOTIC, 4.0, |r, _f| poly_square());
            e!("poly_pulse", [[F(20.0, 8000.0), R(0.1, 0.9)]], NONLIN | CHAOTIC, 4.0, |r, _f| poly_pulse());
            e!("poly_saw_hz", [N], CHAOTIC, 4.0, |r, _f| poly_saw_hz(r.lf(20.0, 3000.0)));
            e!("poly_square_hz", [N], CHAOTIC, 4.0, |r, _f| poly_square_hz(r.lf(20.0, 3000.0)));
            e!("poly_pulse_hz", [N], CHAOTIC, 4.0, |r, _f| poly_pulse_hz(r.lf(20.0, 3000.0), r.f(0.1, 0.9)));
            e!("dsf_saw", [[F(20.0, 3000.0), R(0.01, 0.95)]], NONLIN, 8.0, |r, _f| dsf_saw());
            e!("dsf_saw_r", [[F(20.0, 3000.0)]], NONLIN, 8.0, |r, _f| dsf_saw_r(r.f(0.01, 0.95)));
            e!("dsf_square", [[F(20.0, 3000.0), R(0.01, 0.95)]], NONLIN, 8.0, |r, _f| dsf_square());
            e!("dsf_square_r", [[F(20.0, 3000.0)]], NONLIN, 8.0, |r, _f| dsf_square_r(r.f(0.01, 0.95)));
            e!("pluck", [[A]], 0, 1.0, |r, _f| pluck(r.lf(60.0, 1500.0), r.f(0.1, 0.99), r.f(0.0, 0.9)));
            e!("hold", [[A, F(1.0, 3000.0)]], NONLIN, 1.0, |r, _f| hold(r.f(0.0, 1.0)));
            e!("hold_hz", [[A]], NONLIN, 1.0, |r, _f| hold_hz(r.lf(5.0, 3000.0), r.f(0.0, 1.0)));
            e!("envelope", [N], 0, 4.0, |r, _f| {
                let (a, b) = (r.f(-1.0, 1.0) as $fl, r.f(1.0, 40.0) as $fl);
                envelope(move |t: $fl| a + exp(-t * b))
            });
            e!("envelope_fast", [N], 0, 4.0, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                let i = r.lf(0.0003, 0.02);
                envelope(move |t: $fl| (exp(-t * b), t)).interval(i)
            });
            e!("lfo2out", [N], 0, 4.0, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                lfo(move |t: $fl| (sin(t * b), cos(t * b)))
            });
            e!("lfo_in1", [[A]], NONLIN, if stringify!($m) == "hacker32" { 64.0 } else { 4.0 }, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                lfo2(move |t: $fl, x: $fl| sin(t * b) + x)
            });
            e!("lfo_in2", [[A, A]], NONLIN, if stringify!($m) == "hacker32" { 64.0 } else { 4.0 }, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                lfo3(move |t: $fl, x: $fl, y: $fl| (sin(t * b) + x, y))
            });
            e!("envelope2", [[A]], NONLIN, if stringify!($m) == "hacker32" { 64.0 } else { 4.0 }, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                envelope2(move |t: $fl, x: $fl| sin(t * b) + x)
            });
            e!("envelope3", [[A, A]], NONLIN, if stringify!($m) == "hacker32" { 64.0 } else { 4.0 }, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                envelope3(move |t: $fl, x: $fl, y: $fl| (sin(t * b) + x, y))
            });
            e!("envelope_in", [[A, A]], NONLIN, if stringify!($m) == "hacker32" { 64.0 } else { 4.0 }, |r, _f| {
                let b = r.f(1.0, 40.0) as $fl;
                envelope_in(move |t: $fl, x: &Frame<f32, U2>| sin(t * b) + x[0] as $fl - x[1] as $fl)
            });
            e!("adsr_live", [[Gate]], NONLIN, 128.0, |r, _f| adsr_live(
                r.lf(0.001, 0.05), r.lf(0.001, 0.05), r.f(0.1, 0.9), r.lf(0.001, 0.05)));
            e!("wavech", [N], 0, 1.0, |r, _f| {
                let len = r.usize(10, 900);
                let w = test_wave(r, 2, len);
                let lp = if r.chance(0.6) { Some(r.below(len)) } else { None };
                wavech(&w, r.below(2), lp)
            });
            e!("wavech_at", [N], 0, 1.0, |r, _f| {
                let len = r.usize(10, 900);
                let w = test_wave(r, 1, len);
                let s = r.below(len - 1);
                let en = r.usize(s + 1, len);
                let lp = if r.chance(0.6) { Some(r.usize(0, en - 1)) } else { None };
                wavech_at(&w, 0, s, en, lp)
            });
            e!("var", [N], SHARED, 1.0, |r, _f| var(&shared(r.f(-1.0, 1.0))));
            e!("var_fn", [N], SHARED, 1.0, |r, _f| var_fn(&shared(r.f(-1.0, 1.0)), |x| (x, x + 1.0)));
            e!("timer", [N], SHARED, 1.0, |r, _f| timer(&shared(0.0)) | dc(1.0));
            // --- routing
            e!("pass", [[A]], 0, 1.0, |r, _f| pass());
            e!("multipass", [[A, A, A]], 0, 1.0, |r, _f| multipass::<U3>());
            e!("sink", [[A]], 0, 1.0, |r, _f| sink());
            e!("multisink", [[A, A]], 0, 1.0, |r, _f| multisink::<U2>());
            e!("reverse", [[A, A, A]], 0, 1.0, |r, _f| reverse::<U3>());
            e!("split", [[A]], 0, 1.0, |r, _f| split::<U3>());
            e!("multisplit", [[A, A]], 0, 1.0, |r, _f| multisplit::<U2, U3>());
            e!("join", [[A, A, A]], 0, 1.0, |r, _f| join::<U3>());
            e!("multijoin", [[A, A, A, A]], 0, 1.0, |r, _f| multijoin::<U2, U2>());
            e!("monitor", [[A]], SHARED, 1.0, |r, _f| monitor(&shared(0.0), Meter::Peak(0.1)));
            e!("monitor_sample", [[A]], SHARED, 1.0, |r, _f| monitor(&shared(0.0), Meter::Sample));
            e!("monitor_rms", [[A]], SHARED, 1.0, |r, _f| monitor(&shared(0.0), Meter::Rms(r.lf(0.01, 1.0) as f64)));
            e!("meter_sample", [[A]], NONLIN, 1.0, |r, _f| meter(Meter::Sample));
            e!("meter_peak", [[A]], NONLIN, 1.0, |r, _f| meter(Meter::Peak(r.lf(0.01, 1.0) as f64)));
            e!("meter_rms", [[A]], NONLIN, 1.0, |r, _f| meter(Meter::Rms(r.lf(0.01, 1.0) as f64)));
            e!("add", [[A, A]], NONLIN, 1.0, |r, _f| add((r.f(-1.0, 1.0), r.f(-1.0, 1.0))));
            e!("sub", [[A, A]], NONLIN, 1.0, |r, _f| sub((r.f(-1.0, 1.0), r.f(-1.0, 1.0))));
            e!("mul", [[A, A]], 0, 1.0, |r, _f| mul((r.f(-1.0, 1.0), r.f(-1.0, 1.0))));
            e!("map", [[A, A]], NONLIN, 1.0, |r, _f| map(|x: &Frame<f32, U2>| (x[0] * x[1], x[0] + x[1], x[1])));
            e!("tick", [[A]], 0, 1.0, |r, _f| tick());
            e!("multitick", [[A, A]], 0, 1.0, |r, _f| multitick::<U2>());
            e!("rotate", [[A, A]], 0, 1.0, |r, _f| rotate(r.f(-3.0, 3.0), r.f(0.2, 1.5)));
            e!("panner", [[A, R(-1.2, 1.2)]], 0, 1.0, |r, _f| panner());
            e!("pan", [[A]], 0, 1.0, |r, _f| pan(r.f(-1.0, 1.0)));
            e!("snoop", [[A]], ALLOCS | SHARED, 1.0, |r, _f| snoop(512).1);
            // --- linear filters
            e!("butterpass", [[A, FQ]], 0, 16.0, |r, _f| butterpass());
            e!("butterpass_hz", [[A]], 0, 16.0, |r, f| butterpass_hz(r.lf(20.0, f)));
            e!("lowpole", [[A, FQ]], 0, 4.0, |r, _f| lowpole());
            e!("lowpole_hz", [[A]], 0, 4.0, |r, f| lowpole_hz(r.lf(20.0, f)));
            e!("allpole", [[A, R(0.05, 4.0)]], 0, 4.0, |r, _f| allpole());
            e!("allpole_delay", [[A]], 0, 4.0, |r, _f| allpole_delay(r.f(0.05, 4.0)));
            e!("highpole", [[A, FQ]], 0, 4.0, |r, _f| highpole());
            e!("highpole_hz", [[A]], 0, 4.0, |r, f| highpole_hz(r.lf(20.0, f)));
            e!("resonator", [[A, F(50.0, 15000.0), F(20.0, 2000.0)]], 0, 16.0, |r, _f| resonator());
            e!("resonator_hz", [[A]], 0, 16.0, |r, f| resonator_hz(r.lf(50.0, f), r.lf(20.0, 1000.0)));
            e!("biquad", [[A]], 0, 16.0, |r, _f| biquad(r.f(-0.9, 0.9), r.f(-0.05, 0.6), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)));
            e!("fir", [[A]], 0, 4.0, |r, _f| fir((r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0))));
            e!("fir3", [[A]], 0, 4.0, |r, _f| fir3(r.f(0.0, 1.0)));
            e!("dcblock", [[A]], 0, 4.0, |r, _f| dcblock());
            e!("dcblock_hz", [[A]], 0, 4.0, |r, _f| dcblock_hz(r.lf(5.0, 200.0)));
            e!("pinkpass", [[A]], 0, 4.0, |r, _f| pinkpass());
            e!("declick", [[A]], 0, 8.0, |r, _f| declick());
            e!("declick_s", [[A]], 0, 8.0, |r, _f| declick_s(r.lf(0.001, 0.1)));
            e!("follow", [[A]], 0, 4.0, |r, _f| follow(r.lf(0.001, 0.2)));
            e!("afollow", [[A]], NONLIN, 4.0, |r, _f| afollow(r.lf(0.001, 0.2), r.lf(0.001, 0.2)));
            e!("lowpass", [[A, FQ, QQ]], 0, 16.0, |r, _f| lowpass());
            e!("highpass", [[A, FQ, QQ]], 0, 16.0, |r, _f| highpass());
            e!("bandpass", [[A, FQ, QQ]], 0, 16.0, |r, _f| bandpass());
            e!("notch", [[A, FQ, QQ]], 0, 16.0, |r, _f| notch());
            e!("peak", [[A, FQ, QQ]], 0, 16.0, |r, _f| peak());
            e!("allpass", [[A, FQ, QQ]], 0, 16.0, |r, _f| allpass());
            e!("bell", [[A, FQ, QQ, GG]], 0, 16.0, |r, _f| bell());
            e!("lowshelf", [[A, FQ, QQ, GG]], 0, 16.0, |r, _f| lowshelf());
            e!("highshelf", [[A, FQ, QQ, GG]], 0, 16.0, |r, _f| highshelf());
            e!("lowpass_sub", [[A, FQ, QQ]], 0, 16.0, |r, _f| lowpass().subsample(r.usize(1, 100) as u32));
            e!("bell_sub", [[A, FQ, QQ, GG]], 0, 16.0, |r, _f| bell().subsample(r.usize(1, 40) as u32));
            e!("lowpass_hz", [[A]], 0, 16.0, |r, f| lowpass_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("highpass_hz", [[A]], 0, 16.0, |r, f| highpass_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("bandpass_hz", [[A]], 0, 16.0, |r, f| bandpass_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("notch_hz", [[A]], 0, 16.0, |r, f| notch_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("peak_hz", [[A]], 0, 16.0, |r, f| peak_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("allpass_hz", [[A]], 0, 16.0, |r, f| allpass_hz(r.lf(20.0, f), r.lf(0.2, 10.0)));
            e!("bell_hz", [[A]], 0, 16.0, |r, f| bell_hz(r.lf(20.0, f), r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("lowshelf_hz", [[A]], 0, 16.0, |r, f| lowshelf_hz(r.lf(20.0, f), r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("highshelf_hz", [[A]], 0, 16.0, |r, f| highshelf_hz(r.lf(20.0, f), r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("lowpass_q", [[A, FQ]], 0, 16.0, |r, _f| lowpass_q(r.lf(0.2, 10.0)));
            e!("highpass_q", [[A, FQ]], 0, 16.0, |r, _f| highpass_q(r.lf(0.2, 10.0)));
            e!("bandpass_q", [[A, FQ]], 0, 16.0, |r, _f| bandpass_q(r.lf(0.2, 10.0)));
            e!("notch_q", [[A, FQ]], 0, 16.0, |r, _f| notch_q(r.lf(0.2, 10.0)));
            e!("peak_q", [[A, FQ]], 0, 16.0, |r, _f| peak_q(r.lf(0.2, 10.0)));
            e!("allpass_q", [[A, FQ]], 0, 16.0, |r, _f| allpass_q(r.lf(0.2, 10.0)));
            e!("bell_q", [[A, FQ]], 0, 16.0, |r, _f| bell_q(r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("lowshelf_q", [[A, FQ]], 0, 16.0, |r, _f| lowshelf_q(r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("highshelf_q", [[A, FQ]], 0, 16.0, |r, _f| highshelf_q(r.lf(0.2, 10.0), r.lf(0.2, 4.0)));
            e!("morph", [[A, FQ, QQ, R(-1.0, 1.0)]], 0, 16.0, |r, _f| morph());
            e!("morph_hz", [[A]], 0, 16.0, |r, f| morph_hz(r.lf(20.0, f), r.lf(0.2, 10.0), r.f(-1.0, 1.0)));
            // --- nonlinear filters
            e!("moog", [[A, F(20.0, 8000.0), R(0.0, 0.9)]], NONLIN, 16.0, |r, _f| moog());
            e!("moog_q", [[A, F(20.0, 8000.0)]], NONLIN, 16.0, |r, _f| moog_q(r.f(0.0, 0.9)));
            e!("moog_hz", [[A]], NONLIN, 16.0, |r, _f| moog_hz(r.lf(20.0, 3000.0), r.f(0.0, 0.9)));
            e!("lowrez", [[A, F(20.0, 3500.0), R(0.0, 0.9)]], NONLIN, 16.0, |r, _f| lowrez());
            e!("lowrez_q", [[A, F(20.0, 3500.0)]], NONLIN, 16.0, |r, _f| lowrez_q(r.f(0.0, 0.9)));
            e!("lowrez_hz", [[A]], NONLIN, 16.0, |r, _f| lowrez_hz(r.lf(20.0, 3500.0), r.f(0.0, 0.9)));
            e!("bandrez", [[A, F(20.0, 3500.0), R(0.0, 0.9)]], NONLIN, 16.0, |r, _f| bandrez());
            e!("bandrez_q", [[A, F(20.0, 3500.0)]], NONLIN, 16.0, |r, _f| bandrez_q(r.f(0.0, 0.9)));
            e!("bandrez_hz", [[A]], NONLIN, 16.0, |r, _f| bandrez_hz(r.lf(20.0, 3500.0), r.f(0.0, 0.9)));
            e!("dbell", [[A, FQ, L(0.5, 4.0), L(0.5, 2.0)]], NONLIN, 16.0, |r, _f| dbell(Tanh(r.f(0.3, 0.95))));
            e!("dbell_hz", [[A]], NONLIN, 16.0, |r, f| dbell_hz(Atan(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0), r.f(0.5, 2.0)));
            e!("fbell", [[A, FQ, L(0.5, 4.0), L(0.5, 2.0)]], NONLIN, 16.0, |r, _f| fbell(Softsign(r.f(0.3, 0.95))));
            e!("fbell_hz", [[A]], NONLIN, 16.0, |r, f| fbell_hz(Tanh(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0), r.f(0.5, 2.0)));
            e!("dhighpass", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| dhighpass(Clip(r.f(0.3, 0.95))));
            e!("dhighpass_hz", [[A]], NONLIN, 16.0, |r, f| dhighpass_hz(Tanh(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("fhighpass", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| fhighpass(Tanh(r.f(0.3, 0.95))));
            e!("fhighpass_hz", [[A]], NONLIN, 16.0, |r, f| fhighpass_hz(Softsign(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("dlowpass", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| dlowpass(Atan(r.f(0.3, 0.95))));
            e!("dlowpass_hz", [[A]], NONLIN, 16.0, |r, f| dlowpass_hz(Softsign(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("flowpass", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| flowpass(Clip(r.f(0.3, 0.95))));
            e!("flowpass_hz", [[A]], NONLIN | DRIFT, 16.0, |r, f| flowpass_hz(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95))), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("dresonator", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| dresonator(Tanh(r.f(0.3, 0.95))));
            e!("dresonator_hz", [[A]], NONLIN | DRIFT, 16.0, |r, f| dresonator_hz(Adaptive::new(r.lf(0.01, 0.2), Atan(r.f(0.3, 0.95))), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("fresonator", [[A, FQ, L(0.5, 4.0)]], NONLIN, 16.0, |r, _f| fresonator(Atan(r.f(0.3, 0.95))));
            e!("fresonator_hz", [[A]], NONLIN, 16.0, |r, f| fresonator_hz(Tanh(r.f(0.3, 0.95)), r.lf(50.0, f), r.f(0.5, 4.0)));
            e!("flowpass adaptive", [[A, FQ, L(0.5, 4.0)]], NONLIN | DRIFT, 16.0, |r, _f| flowpass(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            e!("dlowpass adaptive", [[A, FQ, L(0.5, 4.0)]], NONLIN | DRIFT, 16.0, |r, _f| dlowpass(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            e!("fresonator adaptive", [[A, FQ, L(0.5, 4.0)]], NONLIN | DRIFT, 16.0, |r, _f| fresonator(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            e!("dhighpass adaptive", [[A, FQ, L(0.5, 4.0)]], NONLIN | DRIFT, 16.0, |r, _f| dhighpass(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            e!("fbell adaptive", [[A, FQ, L(0.5, 4.0), L(0.5, 2.0)]], NONLIN | DRIFT, 16.0, |r, _f| fbell(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            e!("dbell adaptive", [[A, FQ, L(0.5, 4.0), L(0.5, 2.0)]], NONLIN | DRIFT, 16.0, |r, _f| dbell(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.f(0.3, 0.95)))));
            // --- shapes
            e!("clip", [[A]], NONLIN, 1.0, |r, _f| clip());
            e!("clip_to", [[A]], NONLIN, 1.0, |r, _f| clip_to(r.f(-1.0, 0.0), r.f(0.1, 1.0)));
            e!("shape_fn", [[A]], NONLIN, 1.0, |r, _f| shape_fn(|x| x * x));
            e!("shape_clip", [[A]], NONLIN, 1.0, |r, _f| shape(Clip(r.lf(0.1, 10.0))));
            e!("shape_clipto", [[A]], NONLIN, 1.0, |r, _f| shape(ClipTo(r.f(-1.0, 0.0), r.f(0.1, 1.0))));
            e!("shape_tanh", [[A]], NONLIN, 4.0, |r, _f| shape(Tanh(r.lf(0.1, 10.0))));
            e!("shape_atan", [[A]], NONLIN, 16.0, |r, _f| shape(Atan(r.lf(0.1, 10.0))));
            e!("shape_softsign", [[A]], NONLIN, 4.0, |r, _f| shape(Softsign(r.lf(0.1, 10.0))));
            e!("shape_crush", [[A]], NONLIN | DRIFT, 4.0, |r, _f| shape(Crush(r.lf(1.0, 50.0))));
            e!("shape_softcrush", [[A]], NONLIN | DRIFT, 4.0, |r, _f| shape(SoftCrush(r.lf(1.0, 50.0))));
            e!("shape_adaptive2", [[A]], NONLIN | DRIFT, 4.0, |r, _f| shape(Adaptive::new(r.lf(0.01, 0.2), Adaptive::new(r.lf(0.01, 0.2), Tanh(r.lf(0.1, 2.0))))));
            e!("shape_adaptive", [[A]], NONLIN | DRIFT, 4.0, |r, _f| shape(Adaptive::new(r.lf(0.01, 0.2), Tanh(r.lf(0.1, 2.0)))));
            // --- delays and feedback
            e!("delay", [[A]], 0, 1.0, |r, _f| delay(r.f(0.0, 0.02)));
            e!("delay0", [[A]], 0, 1.0, |r, _f| delay(0.0));
            e!("tap", [[A, R(0.0, 0.02)]], 0, 4.0, |r, _f| tap(0.0, 0.02));
            e!("multitap", [[A, R(0.001, 0.02), R(0.001, 0.02)]], 0, 4.0, |r, _f| multitap::<U2>(0.001, 0.02));
            e!("tap_linear", [[A, R(0.0, 0.02)]], 0, 4.0, |r, _f| tap_linear(0.0, 0.02));
            e!("multitap_linear", [[A, R(0.001, 0.02), R(0.001, 0.02)]], 0, 4.0, |r, _f| multitap_linear::<U2>(0.001, 0.02));
            e!("feedback", [[A]], 0, 16.0, |r, f| feedback(delay(r.f(0.0002, 0.01)) >> lowpole_hz(r.lf(100.0, f)) * r.f(-0.8, 0.8)));
            e!("feedback2", [[A, A]], 0, 16.0, |r, f| feedback2(delay(r.f(0.0002, 0.01)) | lowpole_hz(r.lf(100.0, f)), mul((r.f(-0.8, 0.8), 0.5)) >> reverse::<U2>()));
            e!("fdn", [[A, A]], 0, 16.0, |r, _f| fdn::<U2, _>(stacki::<U2, _, _>(|i| delay(0.003 + 0.0017 * i as f32) * 0.7)));
            e!("fdn2", [[A, A, A, A]], 0, 16.0, |r, _f| fdn2::<U4, _, _>(stacki::<U4, _, _>(|i| delay(0.003 + 0.0017 * i as f32)), stacki::<U4, _, _>(|_| fir3(0.5) * 0.7)));
            e!("allnest", [[A, R(-0.7, 0.7)]], 0, 16.0, |r, _f| allnest(delay(r.f(0.0, 0.01))));
            e!("allnest_c", [[A]], 0, 16.0, |r, f| allnest_c(r.f(-0.7, 0.7), lowpole_hz(r.lf(100.0, f)) >> delay(r.f(0.0, 0.01))));
            e!("limiter", [[A]], NONLIN, 4.0, |r, _f| limiter(r.lf(0.001, 0.05), r.lf(0.001, 0.1)));
            e!("limiter_stereo", [[A, A]], NONLIN, 4.0, |r, _f| mul((3.0, 3.0)) >> limiter_stereo(r.lf(0.001, 0.05), r.lf(0.001, 0.1)));
            e!("chorus", [[A]], DRIFT, 200.0, |r, _f| chorus(r.u64() >> 40, r.f(0.0, 0.02), r.f(0.001, 0.01), r.f(0.1, 2.0)));
            e!("flanger", [[A]], 0, 16.0, |r, _f| flanger(r.f(-0.9, 0.9), 0.005, 0.015, |t| lerp11(0.005, 0.015, sin(t))));
            e!("phaser", [[A]], 0, 16.0, |r, _f| phaser(r.f(-0.9, 0.9), |t| sin(t) * 0.5 + 0.5));
            e!("reverb_stereo", [[A, A]], HEAVY, 32.0, |r, _f| reverb_stereo(r.f(10.0, 30.0), r.f(0.5, 5.0), r.f(0.0, 1.0)));
            e!("reverb2_stereo", [[A, A]], HEAVY, 32.0, |r, _f| reverb2_stereo(r.f(10.0, 30.0), r.f(0.5, 5.0), r.f(0.0, 1.0), r.f(0.3, 2.0), lowpole_hz(3000.0)));
            e!("reverb3_stereo", [[A, A]], HEAVY, 32.0, |r, _f| reverb3_stereo(r.f(0.5, 5.0), r.f(0.0, 1.0), lowpole_hz(3000.0)));
            e!("reverb4_stereo", [[A, A]], HEAVY, 32.0, |r, _f| reverb4_stereo(r.f(10.0, 30.0), r.f(0.5, 5.0)));
            e!("oversample", [[A]], NONLIN, 8.0, |r, _f| oversample(shape(Tanh(r.f(0.3, 3.0)))));
            e!("oversample_gen", [N], 0, 8.0, |r, f| oversample(sine_hz(r.lf(20.0, f))));
            e!("resample", [[L(0.3, 3.0)]], NONLIN, 8.0, |r, f| resample(sine_hz(r.lf(20.0, f)) | noise()));
            e!("resynth", [[A, A]], 0, 16.0, |r, _f| {
                let g = r.f(-1.0, 1.0);
                resynth::<U2, U1, _>(1usize << r.usize(4, 9), move |w| {
                    for i in 0..w.bins() {
                        let x = w.at(0, i) * g + w.at(1, i);
                        w.set(0, i, x);
                    }
                })
            });
            // --- combinators over the static API
            e!("busi", [[A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; busi::<U3, _, _>(move |i| bandpass_hz(fm * 0.1 * (i + 1) as f32, q)) });
            e!("busf", [N], 0, 8.0, |r, f| { let fm = f; busf::<U3, _, _>(move |x| sine_hz(fm * 0.1 * (x + 1.0))) });
            e!("stacki", [[A, A, A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; stacki::<U3, _, _>(move |i| lowpass_hz(fm * 0.1 * (i + 1) as f32, q)) });
            e!("stackf", [[A, A, A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; stackf::<U3, _, _>(move |i| lowpass_hz(fm * 0.1 * (i + 1.0), q)) });
            e!("branchi", [[A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; branchi::<U3, _, _>(move |i| highpass_hz(fm * 0.1 * (i + 1) as f32, q)) });
            e!("branchf", [[A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; branchf::<U3, _, _>(move |i| highpass_hz(fm * 0.1 * (i + 1.0), q)) });
            e!("sumi", [[A, A, A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; sumi::<U3, _, _>(move |i| notch_hz(fm * 0.1 * (i + 1) as f32, q)) });
            e!("sumf", [[A, A, A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; sumf::<U3, _, _>(move |i| notch_hz(fm * 0.1 * (i + 1.0), q)) });
            e!("pipei", [[A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; pipei::<U3, _, _>(move |i| bell_hz(fm * 0.1 * (i + 1) as f32, q, 1.5)) });
            e!("pipef", [[A]], 0, 8.0, |r, f| { let q = r.lf(0.3, 3.0); let fm = f; pipef::<U3, _, _>(move |i| bell_hz(fm * 0.1 * (i + 1.0), q, 1.5)) });
            e!("thru", [[A, A]], 0, 8.0, |r, f| !(pass() * 2.0 | lowpole_hz(r.lf(50.0, f))) >> multipass::<U2>());
            e!("thru2", [[A, A]], 0, 8.0, |r, _f| !(multipass::<U2>() >> join::<U2>()));
            e!("thru3", [[A]], 0, 8.0, |r, f| !(lowpole_hz(r.lf(50.0, f)) ^ pass()));
            e!("thru4", [[A, A]], 0, 8.0, |r, f| !(lowpole_hz(r.lf(50.0, f)) | split::<U2>() | noise()));
            e!("thru5", [[A, A, A]], 0, 8.0, |r, _f| !(noise() | sink() | sink() | sink()));
            e!("reduce_sub", [[A, A, A]], 0, 8.0, |r, f| { let q = r.lf(50.0, f); An(Reduce::<U3, _, _>::new(Frame::generate(|i| lowpole_hz(q / (i + 1) as f32).0), FrameSub::new())) });
            e!("reduce_mul", [[A, A, A, A]], NONLIN, 8.0, |r, f| { let q = r.lf(50.0, f); An(Reduce::<U2, _, _>::new(Frame::generate(|i| (lowpole_hz(q / (i + 1) as f32) | delay(0.0007 * (i + 1) as f32)).0), FrameMul::new())) });
            e!("multi_shapes", [[A, A]], 0, 8.0, |r, f| multisplit::<U2, U5>() >> (multitick::<U5>() | multipass::<U4>() | lowpole_hz(r.lf(50.0, f))) >> reverse::<U10>() >> multijoin::<U5, U2>());
            e!("neg_stack", [[A, A, A]], 0, 8.0, |r, _f| -(multitick::<U3>() * 0.5) - (dc((0.1, 0.2, 0.3))));
            e!("neg", [[A]], 0, 1.0, |r, _f| -pass() + 0.5);
            e!("product", [[A, A]], NONLIN, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) * highpole_hz(r.lf(50.0, f)));
            e!("sum_expr", [[A, A]], 0, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) + highpole_hz(r.lf(50.0, f)));
            e!("sub_expr", [[A, A]], 0, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) - highpole_hz(r.lf(50.0, f)));
            e!("bus_expr", [[A]], 0, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) & highpole_hz(r.lf(50.0, f)) & delay(0.001));
            e!("branch_expr", [[A]], 0, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) ^ highpole_hz(r.lf(50.0, f)) ^ delay(0.001));
            e!("stack_expr", [[A, A, A, A]], 0, 8.0, |r, f| lowpole_hz(r.lf(50.0, f)) | highpole_hz(r.lf(50.0, f)) | noise() | sink() | dc(1.0) | zero() >> pass() | sink());
            e!("synth_voice", [N], 0, 5000.0, |r, _f| (saw_hz(r.lf(50.0, 900.0)) * 0.3 | lfo(|t: $fl| xerp11(200.0, 3000.0, sin_hz(3.0, t))) | dc(0.7)) >> lowpass() >> (pass() ^ (delay(0.01) * 0.3)) >> join::<U2>() >> pan(0.3));
            v
        }
    };
}

catalog!(hacker, hacker, f64, fundsp::hacker);
catalog!(hacker32, hacker32, f32, fundsp::hacker32);

/// Everything; heavy sound library entries included.
pub fn all() -> Vec<Entry> {
    let mut v = hacker();
    let mut w = hacker32();
    for e in w.iter_mut() {
        // Single precision internals.
        e.tol = (e.tol * if e.name.contains("sine") { 100.0 } else { 32.0 }).min(5000.0);
        if e.name.contains("sine") || matches!(e.name, "busf" | "oversample_gen" | "resample" | "ramp_hz") {
            e.flags |= DRIFT;
        }
    }
    v.extend(w);
    v.extend(extra());
    v
}

/// Units that are not opcodes: boxed adapters, sound library.
pub fn extra() -> Vec<Entry> {
    use fundsp::hacker::*;
    let mut v: Vec<Entry> = vec![];
    macro_rules! e {
        ($name:expr, [$($k:expr),*], $fg:expr, $tol:expr, $x:expr) => {
            v.push(Entry { name: $name, env: "unit", kinds: vec![$($k),*], make: $x, flags: $fg, tol: $tol })
        };
    }
    e!("risset", [], HEAVY, 32.0, |r, _| Box::new(fundsp::sound::risset_glissando(r.chance(0.5))));
    e!("bassdrum", [], HEAVY, 32.0, |r, _| Box::new(fundsp::sound::bassdrum(r.f(0.0, 1.0), 180.0, 60.0)));
    e!("snaredrum", [], HEAVY | DRIFT, 32.0, |r, _| Box::new(fundsp::sound::snaredrum(r.int(0, 1000), r.f(0.0, 1.0))));
    e!("pebbles", [], HEAVY | BLOCKY, 32.0, |r, _| Box::new(fundsp::sound::pebbles(1.0, r.u64() >> 40)));
    e!("update", [A], BLOCKY, 1.0, |_r, _| Box::new(update(
        pass() * dc(0.5),
        0.001,
        |t, _dt, x| { x.right_mut().set_scalar(t) }
    )));
    e!("biquad_bank", [A, A, A, A], 0, 16.0, |r, _| {
        use fundsp::biquad::BiquadCoefs;
        let _ = &r;
        let mut b = biquad_bank();
        b.set_coefs(BiquadCoefs::arbitrary(
            fundsp::wide::f64x4::splat(r.uni(-0.9, 0.9)), fundsp::wide::f64x4::splat(r.uni(0.0, 0.6)),
            fundsp::wide::f64x4::splat(r.uni(-1.0, 1.0)), fundsp::wide::f64x4::new([r.uni(-1.0, 1.0), 0.3, 0.5, 0.7]), fundsp::wide::f64x4::splat(r.uni(-1.0, 1.0))));
        Box::new(b)
    });
    e!("big_block", [A], 0, 16.0, |r, f| Box::new(BigBlockAdapter::new(Box::new(lowpass_hz(r.lf(50.0, f), 1.0)))));
    e!("block_rate", [], 0, 4.0, |r, f| Box::new(BlockRateAdapter::new(Box::new(sine_hz(r.lf(50.0, f)) | noise()))));
    e!("dummy", [A, A], 0, 1.0, |_r, _| Box::new(DummyUnit::new(2, 3)));
    e!("feedback_unit", [A, A], 0, 16.0, |r, f| Box::new(FeedbackUnit::new(
        r.uni(0.0, 0.01),
        Box::new(lowpole_hz(r.lf(100.0, f)) * 0.6 | highpole_hz(r.lf(100.0, f)) * -0.6)
    )));
    e!("unit_wrap", [A, A], 0, 16.0, |r, f| Box::new(unit::<U2, U1>(Box::new(lowpass_hz(r.lf(50.0, f), 1.0) + pass()))));
    e!("listener", [A], 0, 16.0, |r, f| Box::new(listen(lowpass_hz(r.lf(50.0, f), 1.0)).1));
    e!("net", [A, A], 0, 16.0, |r, f| {
        let mut n = Net::new(2, 2);
        let a = n.push(Box::new(lowpass_hz(r.lf(50.0, f), 1.0)));
        let b = n.push(Box::new(noise() * pass()));
        let c = n.push(Box::new(pass() + delay(0.001)));
        n.connect_input(0, a, 0);
        n.connect_input(1, b, 0);
        n.connect(a, 0, c, 0);
        n.connect(b, 0, c, 1);
        n.connect_output(c, 0, 0);
        n.connect_output(a, 0, 1);
        Box::new(n)
    });
    e!("net_backend", [A], 0, 16.0, |r, f| {
        let mut n = Net::wrap(Box::new(lowpass_hz(r.lf(50.0, f), 1.0) >> declick()));
        Box::new(n.backend())
    });
    e!("slot_backend", [A], 0, 16.0, |r, f| {
        Box::new(Slot::new(Box::new(highpass_hz(r.lf(50.0, f), 1.0))).1)
    });
    e!("sequencer", [], 0, 16.0, |r, f| {
        let mut s = Sequencer::new(true, 2);
        for _ in 0..r.usize(1, 6) {
            let t = r.uni(0.0, 0.02);
            let d = r.uni(0.002, 0.03);
            let fi = r.uni(0.0, 0.4) * d;
            let fo = r.uni(0.0, 0.4) * d;
            s.push(t, t + d, if r.chance(0.5) { Fade::Smooth } else { Fade::Power }, fi, fo,
                Box::new(sine_hz(r.lf(50.0, f)) | noise().seed(r.u64())));
        }
        Box::new(s)
    });
    v
}
