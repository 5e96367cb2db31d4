//! Rendering helpers and stimulus generators.
use crate::core::*;
use fundsp::prelude::*;

/// Kind of an input channel.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// Audio in -1..1.
    A,
    /// Frequency in Hz (log uniform lo..hi).
    F(f32, f32),
    /// Linear parameter.
    R(f32, f32),
    /// Log parameter.
    L(f32, f32),
    /// Gate 0/1.
    Gate,
    /// Frequency that stays constant.
    C(f32, f32),
}

/// Audio stimulus.
pub fn audio(rng: &mut Rng, n: usize) -> Vec<f32> {
    let mode = rng.below(7);
    let amp = *rng.pick(&[1.0f32, 0.5, 0.1, 1.0]);
    match mode {
        0 | 1 => (0..n).map(|_| rng.f(-1.0, 1.0) * amp).collect(),
        2 => {
            // impulses
            let p = rng.log(0.001, 0.1);
            (0..n).map(|_| if rng.chance(p) { rng.f(-1.0, 1.0) } else { 0.0 }).collect()
        }
        3 => {
            let f = rng.log(0.0005, 0.45);
            let ph = rng.f64();
            (0..n).map(|i| ((i as f64 * f + ph) * std::f64::consts::TAU).sin() as f32 * amp).collect()
        }
        4 => {
            // steps with silence
            let mut v = 0.0;
            (0..n)
                .map(|_| {
                    if rng.chance(0.02) {
                        v = if rng.chance(0.3) { 0.0 } else { rng.f(-1.0, 1.0) };
                    }
                    v
                })
                .collect()
        }
        5 => {
            // noise bursts
            let mut on = true;
            (0..n)
                .map(|_| {
                    if rng.chance(0.01) {
                        on = !on;
                    }
                    if on {
                        rng.f(-1.0, 1.0) * amp
                    } else {
                        0.0
                    }
                })
                .collect()
        }
        _ => {
            let mut s = 0.0f32;
            (0..n)
                .map(|_| {
                    s = s * 0.95 + rng.f(-0.3, 0.3);
                    s.clamp(-1.0, 1.0)
                })
                .collect()
        }
    }
}

/// Parameter stimulus.
pub fn stimulus(rng: &mut Rng, kind: Kind, n: usize) -> Vec<f32> {
    match kind {
        Kind::A => audio(rng, n),
        Kind::Gate => {
            let mut on = rng.chance(0.5);
            let p = rng.log(0.0005, 0.02);
            (0..n)
                .map(|_| {
                    if rng.chance(p) {
                        on = !on;
                    }
                    if on {
                        1.0
                    } else {
                        0.0
                    }
                })
                .collect()
        }
        Kind::F(lo, hi) | Kind::L(lo, hi) => {
            let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
            param(rng, a, b, n).into_iter().map(|x| (x.exp() as f32).clamp(lo, hi)).collect()
        }
        Kind::C(lo, hi) => vec![rng.lf(lo, hi); n],
        Kind::R(lo, hi) => param(rng, lo as f64, hi as f64, n)
            .into_iter()
            .map(|x| (x as f32).clamp(lo, hi))
            .collect(),
    }
}

fn param(rng: &mut Rng, lo: f64, hi: f64, n: usize) -> Vec<f64> {
    match rng.below(4) {
        0 => {
            let v = rng.uni(lo, hi);
            vec![v; n]
        }
        1 => {
            // steps
            let mut v = rng.uni(lo, hi);
            let p = rng.log(0.002, 0.1);
            (0..n)
                .map(|_| {
                    if rng.chance(p) {
                        v = rng.uni(lo, hi);
                    }
                    v
                })
                .collect()
        }
        2 => {
            // glide
            let (mut a, mut b) = (rng.uni(lo, hi), rng.uni(lo, hi));
            let seg = rng.usize(20, 400);
            (0..n)
                .map(|i| {
                    let t = (i % seg) as f64 / seg as f64;
                    if i > 0 && i % seg == 0 {
                        a = b;
                        b = rng.uni(lo, hi);
                    }
                    a + (b - a) * t
                })
                .collect()
        }
        _ => {
            let mut v = rng.uni(lo, hi);
            let d = (hi - lo) * 0.02;
            (0..n)
                .map(|_| {
                    v = (v + rng.uni(-d, d)).clamp(lo, hi);
                    v
                })
                .collect()
        }
    }
}

pub type Chans = Vec<Vec<f32>>;

pub fn stimuli(rng: &mut Rng, kinds: &[Kind], n: usize) -> Chans {
    kinds.iter().map(|k| stimulus(rng, *k, n)).collect()
}

/// How to chop a rendering: 0..=64 is a process call of that size, usize::MAX is a tick.
pub const TICK: usize = usize::MAX;

pub fn partition(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mode = rng.below(8);
    let mut left = n;
    let mut out = vec![];
    while left > 0 {
        let s = match mode {
            0 => 64,
            1 => rng.usize(1, 64),
            2 => rng.usize(0, 64),
            3 => *rng.pick(&[1, 7, 8, 9, 15, 16, 17, 63, 64]),
            4 => rng.usize(1, 9),
            5 => *rng.pick(&[64, 64, 64, 0, 33, TICK]),
            6 => {
                if rng.chance(0.5) {
                    TICK
                } else {
                    rng.usize(0, 64)
                }
            }
            _ => rng.usize(56, 64),
        };
        if s == TICK {
            out.push(TICK);
            left -= 1;
        } else {
            let s = if s < left { s } else { left };
            out.push(s);
            left -= s;
        }
    }
    out
}

pub fn ticks(n: usize) -> Vec<usize> {
    vec![TICK; n]
}

pub fn blocks(n: usize) -> Vec<usize> {
    let mut v = vec![64; n / 64];
    if n % 64 > 0 {
        v.push(n % 64);
    }
    v
}

pub struct Runner {
    ib: BufferVec,
    ob: BufferVec,
    fi: Vec<f32>,
    fo: Vec<f32>,
    /// What to put in unused input lanes and preexisting output.
    pub garbage: f32,
    pub pos: usize,
}

impl Runner {
    pub fn new(unit: &dyn AudioUnit) -> Self {
        Runner {
            ib: BufferVec::new(unit.inputs()),
            ob: BufferVec::new(unit.outputs()),
            fi: vec![0.0; unit.inputs()],
            fo: vec![0.0; unit.outputs()],
            garbage: 777.0,
            pos: 0,
        }
    }
    /// Render one step from inputs at `self.pos`, append to out.
    pub fn step(&mut self, unit: &mut dyn AudioUnit, step: usize, input: &[Vec<f32>], out: &mut [Vec<f32>]) {
        if step == TICK {
            for c in 0..self.fi.len() {
                self.fi[c] = input[c][self.pos];
            }
            for c in 0..self.fo.len() {
                self.fo[c] = f32::NAN;
            }
            unit.tick(&self.fi, &mut self.fo);
            for c in 0..self.fo.len() {
                out[c].push(self.fo[c]);
            }
            self.pos += 1;
        } else {
            for c in 0..self.fi.len() {
                let s = self.ib.channel_f32_mut(c);
                for i in 0..64 {
                    s[i] = if i < step { input[c][self.pos + i] } else { self.garbage };
                }
            }
            for c in 0..self.fo.len() {
                let s = self.ob.channel_f32_mut(c);
                for i in 0..64 {
                    s[i] = f32::NAN;
                }
            }
            unit.process(step, &self.ib.buffer_ref(), &mut self.ob.buffer_mut());
            for c in 0..self.fo.len() {
                let s = self.ob.channel_f32(c);
                out[c].extend_from_slice(&s[0..step]);
            }
            self.pos += step;
        }
    }
}

/// Render a unit over `steps`.
pub fn render(unit: &mut dyn AudioUnit, input: &[Vec<f32>], steps: &[usize]) -> Chans {
    assert_eq!(unit.inputs(), input.len(), "harness: input arity");
    let mut r = Runner::new(unit);
    let mut out: Chans = vec![vec![]; unit.outputs()];
    for &s in steps {
        r.step(unit, s, input, &mut out);
    }
    out
}

/// Compare outputs. Ok(max difference).
pub fn compare(a: &[Vec<f32>], b: &[Vec<f32>], abs: f64, rel: f64) -> Result<f64, String> {
    if a.len() != b.len() {
        return Err(format!("channel count {} vs {}", a.len(), b.len()));
    }
    let mut md = 0.0f64;
    for c in 0..a.len() {
        if a[c].len() != b[c].len() {
            return Err(format!("length {} vs {}", a[c].len(), b[c].len()));
        }
        let peak = a[c].iter().fold(0.0f64, |m, x| if x.is_finite() { m.max(x.abs() as f64) } else { m });
        for i in 0..a[c].len() {
            let (x, y) = (a[c][i], b[c][i]);
            if x.to_bits() == y.to_bits() || x == y {
                continue;
            }
            if x.is_nan() && y.is_nan() {
                continue;
            }
            let d = (x as f64 - y as f64).abs();
            if !(d <= abs + rel * peak) {
                return Err(format!("channel {} sample {}: {} vs {} (diff {:e}, tol {:e})", c, i, x, y, d, abs + rel * peak));
            }
            md = md.max(d);
        }
    }
    Ok(md)
}

pub fn energy(a: &[Vec<f32>]) -> f64 {
    a.iter().flat_map(|c| c.iter()).map(|x| (*x as f64) * (*x as f64)).sum()
}

pub fn nontrivial(a: &[Vec<f32>]) -> bool {
    a.iter().any(|c| c.iter().any(|x| *x != c[0]) || c.iter().any(|x| *x != 0.0))
}

pub const RATES: [f64; 7] = [44100.0, 48000.0, 22050.0, 96000.0, 8000.0, 11025.0, 192000.0];

pub fn rate(rng: &mut Rng) -> f64 {
    if rng.chance(0.4) {
        44100.0
    } else {
        *rng.pick(&RATES)
    }
}
