//! Per-sample interpreter of a Sequencer.
use crate::dunit::*;

#[derive(Clone)]
pub struct Ev {
    pub unit: DRef,
    pub start: f64,
    pub end: f64,
    pub smooth: bool,
    pub fi: f64,
    pub fo: f64,
    pub done: bool,
}

fn ease(smooth: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if smooth {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    } else {
        (x * std::f64::consts::FRAC_PI_2).sin()
    }
}

pub struct SeqModel {
    pub ev: Vec<Ev>,
    pub outs: usize,
    /// Time of the sample `n` is `t0 + n / rate`.
    pub t0: f64,
    pub n: u64,
    pub rate: f64,
    pub replay: bool,
}

impl SeqModel {
    pub fn new(replay: bool, outs: usize) -> Self {
        SeqModel { ev: vec![], outs, t0: 0.0, n: 0, rate: 44100.0, replay }
    }
    pub fn time(&self) -> f64 {
        self.t0 + self.n as f64 / self.rate
    }
    pub fn started(&self, k: usize) -> bool {
        self.ev[k].unit.ticks > 0 || self.ev[k].start < self.time() - 0.5 / self.rate
    }
    pub fn ended(&self, k: usize) -> bool {
        self.ev[k].done || self.ev[k].end <= self.time() + 0.5 / self.rate
    }
    /// Is `t` too close to the middle between two samples for rounding to be certain?
    pub fn murky(&self, t: f64) -> bool {
        if !t.is_finite() {
            return false;
        }
        let f = ((t - self.t0) * self.rate).rem_euclid(1.0);
        (f - 0.5).abs() < 1e-3
    }
    pub fn tick(&mut self) -> Vec<f32> {
        let t = self.time();
        let h = 0.5 / self.rate;
        let mut out = vec![0.0f64; self.outs];
        for e in self.ev.iter_mut().filter(|e| !e.done) {
            if e.end <= t + h {
                e.done = true;
                continue;
            }
            if e.start >= t + h {
                continue;
            }
            let y = e.unit.tick(&[]);
            let mut w = 1.0;
            if e.fi > 0.0 {
                w *= ease(e.smooth, (t - e.start) / e.fi);
            }
            if e.fo > 0.0 && e.end.is_finite() {
                w *= ease(e.smooth, 1.0 - (t - (e.end - e.fo)) / e.fo);
            }
            for c in 0..self.outs {
                out[c] += y[c] as f64 * w;
            }
        }
        self.n += 1;
        out.iter().map(|x| *x as f32).collect()
    }
    pub fn set_rate(&mut self, r: f64) {
        if r != self.rate {
            self.t0 = self.time();
            self.n = 0;
            self.rate = r;
            self.ev.iter_mut().for_each(|e| e.unit.set_rate(r));
        }
    }
    pub fn reset(&mut self) {
        if self.replay {
            for e in self.ev.iter_mut() {
                e.done = false;
                e.unit.reset();
            }
        } else {
            self.ev.iter_mut().for_each(|e| e.done = true);
        }
        self.t0 = 0.0;
        self.n = 0;
    }
}
