//! P10: Slot replaces units by a faithful crossfade.
use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use vh::dunit::*;
use vh::{audio, nontrivial, partition, Chans, Ctx, Rec, Runner, TICK};

#[derive(Clone)]
struct Up {
    unit: DRef,
    smooth: bool,
    time: f64,
}

fn at(smooth: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if smooth {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    } else {
        (x * std::f64::consts::FRAC_PI_2).sin()
    }
}

struct Model {
    cur: DRef,
    next: Option<Up>,
    latest: Option<Up>,
    /// Phase of the fade 0...1.
    phase: f64,
    rate: f64,
    ambiguous: bool,
    /// The last step ended so close to the end of a fade that rounding decides whether it is over.
    edge: bool,
}

impl Model {
    fn take(&mut self, mut u: Up) {
        self.ambiguous |= self.edge;
        u.unit.set_rate(self.rate);
        if self.next.is_some() {
            self.latest = Some(u);
        } else {
            self.next = Some(u);
            self.phase = 0.0;
        }
    }
    /// Output and whether each sample can be judged.
    fn step(&mut self, size: usize, x: &[Vec<f32>], pos: usize, out: &mut [Vec<f32>], judge: &mut Vec<bool>) {
        let mut ended = false;
        self.edge = false;
        for i in 0..size {
            let fr: Vec<f32> = x.iter().map(|c| c[pos + i]).collect();
            let mut y = self.cur.tick(&fr);
            let mut ok = true;
            if let Some(e) = &mut self.next {
                let z = e.unit.tick(&fr);
                let d = 1.0 / (e.time * self.rate);
                // Samples left in the fade.
                let left = if e.time > 0.0 { (1.0 - self.phase) / d } else { 0.0 };
                ok = left.abs() > 1.01;
                if left <= 1e-6 {
                    y = z;
                    ok = !(left > -1.01);
                } else {
                    let (a, b) = (at(e.smooth, 1.0 - self.phase) as f32, at(e.smooth, self.phase) as f32);
                    for c in 0..y.len() {
                        y[c] = y[c] * a + z[c] * b;
                    }
                }
                self.phase += d;
                let left = left - 1.0;
                // The step in which a fade ends decides when the next one can start.
                if self.latest.is_some() && left.abs() < 1.01 && i + 2 >= size {
                    self.ambiguous = true;
                }
                if left.abs() < 1.01 && i + 2 >= size {
                    self.edge = true;
                }
                if left <= 1e-6 {
                    ended = true;
                }
            }
            judge.push(ok);
            for c in 0..y.len() {
                out[c].push(y[c]);
            }
        }
        if ended {
            self.cur = self.next.take().unwrap().unit;
            self.next = self.latest.take();
            self.phase = 0.0;
        }
    }
    fn reset(&mut self) {
        if let Some(l) = self.latest.take() {
            self.cur = l.unit;
            self.next = None;
        } else if let Some(n) = self.next.take() {
            self.cur = n.unit;
        }
        self.cur.reset();
    }
    fn set_rate(&mut self, r: f64) {
        self.ambiguous |= self.edge;
        self.rate = r;
        self.cur.set_rate(r);
        for e in [&mut self.next, &mut self.latest] {
            if let Some(e) = e {
                e.unit.set_rate(r);
            }
        }
    }
}

fn case(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let (i, o) = *r.pick(&[(0, 1), (1, 1), (2, 2), (0, 2), (3, 1), (1, 3)]);
    let seed = r.u64();
    let (mut slot, mut back) = Slot::new(DUnit::boxed(seed, i, o));
    if slot.inputs() != i || slot.outputs() != o {
        return Err("slot arity".into());
    }
    let mut m = Model { cur: DRef::new(seed, i, o, true), next: None, latest: None, phase: 0.0, rate: DEFAULT_SR, ambiguous: false, edge: false };
    let mut log = vec![format!("Slot({},{})", i, o)];
    let mut q: VecDeque<Up> = VecDeque::new();
    let mut units = 1;
    for _ in 0..r.usize(1, 12) {
        match r.below(8) {
            0 => {
                let sr = vh::rate(&mut r);
                back.set_sample_rate(sr);
                m.set_rate(sr);
                log.push(format!("rate {}", sr));
            }
            1 if q.is_empty() => {
                back.reset();
                m.reset();
                log.push("reset".into());
            }
            _ => {}
        }
        for _ in 0..if r.chance(0.6) { 1 } else { r.below(4) } {
            let n = match r.below(4) {
                0 => 0.0,
                1 => r.uni(0.2, 20.0),
                _ => r.usize(10, 400) as f64 + 0.5,
            };
            let (seed, smooth, time) = (r.u64(), r.chance(0.5), n / m.rate);
            slot.set(if smooth { Fade::Smooth } else { Fade::Power }, time, DUnit::boxed(seed, i, o));
            q.push_back(Up { unit: DRef::new(seed, i, o, true), smooth, time });
            log.push(format!("set#{} smooth {} samples {:.2}", units, smooth, n));
            units += 1;
            rec.count("sets", 1);
        }
        let n = r.usize(1, 300);
        let x: Chans = (0..i).map(|_| audio(&mut r, n)).collect();
        let steps: Vec<usize> = partition(&mut r, n).into_iter().filter(|s| *s != 0).collect();
        let mut run = Runner::new(&back);
        let mut got: Chans = vec![vec![]; o];
        let mut want: Chans = vec![vec![]; o];
        let mut judge = vec![];
        let mut pos = 0;
        for &s in &steps {
            if q.len() > 2 {
                rec.count("superseded", 1);
            }
            while let Some(u) = q.pop_front() {
                m.take(u);
            }
            if m.ambiguous {
                rec.count("ambiguous_rounding_skipped", 1);
                break;
            }
            run.step(&mut back, s, &x, &mut got);
            let k = if s == TICK { 1 } else { s };
            m.step(k, &x, pos, &mut want, &mut judge);
            pos += k;
        }
        log.push(format!("render {} in {} steps", pos, steps.len()));
        rec.ctx = log.join("; ");
        rec.count("samples", pos as u64);
        rec.count("fading_samples_unjudged", judge.iter().filter(|j| !**j).count() as u64);
        if nontrivial(&want) {
            rec.distinct(&rec.ctx.clone());
        }
        for c in 0..o {
            for k in 0..pos {
                let (a, b) = (want[c][k], got[c][k]);
                if judge[k] && !((a - b).abs() <= 4e-3 * (1.0 + a.abs())) {
                    return Err(format!("channel {} sample {}: model {} backend {}", c, k, a, b));
                }
            }
        }
        if m.ambiguous {
            return Ok(());
        }
    }
    rec.sample = Some(rec.ctx.chars().take(300).collect());
    Ok(())
}

/// Same unit faded into itself with complementary weights is unchanged (smooth) or bounded (power).
fn weights(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let smooth = r.chance(0.5);
    let n = r.uni(1.0, 3000.0);
    let (mut slot, mut back) = Slot::new(Box::new(dc(1.0)));
    let sr = vh::rate(&mut r);
    back.set_sample_rate(sr);
    slot.set(if smooth { Fade::Smooth } else { Fade::Power }, n / sr, Box::new(dc(1.0)));
    let total = n as usize + 100;
    let steps = partition(&mut r, total);
    let y = vh::render(&mut back, &[], &steps);
    rec.ctx = format!("smooth {} samples {} rate {}", smooth, n, sr);
    rec.distinct(&rec.ctx.clone());
    for (k, v) in y[0].iter().enumerate() {
        let t = (k as f64 / n).min(1.0);
        let want = at(smooth, t) + at(smooth, 1.0 - t);
        let near_end = (k as f64 - n).abs() <= 1.01;
        let tol = if near_end { 0.5 } else { 4e-3 };
        if !((*v as f64 - want).abs() <= tol) || (smooth && (*v - 1.0).abs() > 1e-3) {
            return Err(format!("sum of weights at sample {} is {}, expected {}", k, v, want));
        }
    }
    rec.count("weight_samples", total as u64);
    Ok(())
}

#[derive(Clone)]
struct Const {
    v: f32,
    drops: Arc<AtomicU64>,
    audio_drops: Arc<AtomicU64>,
}
thread_local! {
    static AUDIO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Drop for Const {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::SeqCst);
        if AUDIO.with(|a| a.get()) {
            self.audio_drops.fetch_add(1, Ordering::SeqCst);
        }
    }
}
impl AudioUnit for Const {
    fn inputs(&self) -> usize {
        0
    }
    fn outputs(&self) -> usize {
        1
    }
    fn reset(&mut self) {}
    fn set_sample_rate(&mut self, _: f64) {}
    fn tick(&mut self, _i: &[f32], output: &mut [f32]) {
        output[0] = self.v;
    }
    fn process(&mut self, size: usize, _i: &BufferRef, output: &mut BufferMut) {
        output.channel_f32_mut(0)[..size].fill(self.v);
    }
    fn get_id(&self) -> u64 {
        900010
    }
    fn route(&mut self, input: &SignalFrame, _f: f64) -> SignalFrame {
        Routing::Generator(0.0).route(input, 1)
    }
    fn footprint(&self) -> usize {
        0
    }
    fn allocate(&mut self) {}
}

/// Values set are increasing, so whatever the timing the output may never decrease and ends at the last value.
fn threads(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let drops = Arc::new(AtomicU64::new(0));
    let audio_drops = Arc::new(AtomicU64::new(0));
    let mk = |k: usize| Box::new(Const { v: k as f32, drops: drops.clone(), audio_drops: audio_drops.clone() });
    let (mut slot, mut back) = Slot::new(mk(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let (stop2, done2) = (stop.clone(), done.clone());
    let mut r2 = r.fork();
    let audio = std::thread::spawn(move || {
        AUDIO.with(|a| a.set(true));
        let mut buf = BufferVec::new(1);
        let mut last = 0.0f32;
        let mut plateaus: Vec<f32> = vec![];
        let mut err = None;
        let mut end = None;
        let mut t = 0u64;
        loop {
            let n = if r2.chance(0.2) { 1 } else { r2.usize(1, 64) };
            let mut f = [0.0];
            let v: Vec<f32> = if n == 1 {
                back.tick(&[], &mut f);
                vec![f[0]]
            } else {
                back.process(n, &BufferRef::empty(), &mut buf.buffer_mut());
                buf.channel_f32(0)[..n].to_vec()
            };
            for x in v {
                if !(x >= last - 1e-3 * (1.0 + last.abs())) {
                    err.get_or_insert(format!("output fell from {} to {} at sample {}", last, x, t));
                }
                if x == last && x.fract() == 0.0 && plateaus.last() != Some(&x) {
                    plateaus.push(x);
                }
                last = x;
                t += 1;
            }
            done2.store(t, Ordering::SeqCst);
            if stop2.load(Ordering::SeqCst) {
                if t > *end.get_or_insert(t) + 1000 {
                    break;
                }
            }
        }
        AUDIO.with(|a| a.set(false));
        (last, plateaus, err, back)
    });
    let sets = r.usize(5, 60);
    for k in 1..=sets {
        let n = *r.pick(&[0.0, 1.0, 30.0, 100.0, 300.0]);
        slot.set(Fade::Smooth, n / DEFAULT_SR, mk(k));
        if r.chance(0.6) {
            let t = done.load(Ordering::SeqCst) + r.below(500) as u64;
            while done.load(Ordering::SeqCst) < t {
                std::thread::yield_now();
            }
        }
    }
    stop.store(true, Ordering::SeqCst);
    let (last, plateaus, err, back) = audio.join().map_err(|_| "audio thread panicked".to_string())?;
    rec.ctx = format!("{} sets, plateaus {:?}", sets, plateaus);
    rec.count("thread_sets", sets as u64);
    rec.count("thread_plateaus", plateaus.len() as u64);
    rec.distinct(&rec.ctx.clone());
    if let Some(e) = err {
        return Err(e);
    }
    if last != sets as f32 {
        return Err(format!("ended at unit {} instead of {}", last, sets));
    }
    if audio_drops.load(Ordering::SeqCst) != 0 {
        return Err("a unit was dropped on the audio thread".into());
    }
    drop(back);
    drop(slot);
    if drops.load(Ordering::SeqCst) != sets as u64 + 1 {
        return Err(format!("{} units freed out of {}", drops.load(Ordering::SeqCst), sets + 1));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("P10", "a case is nontrivial when the slot rendered a nonzero signal; distinct by history");
    ctx.par("history", ctx.scale(60000, 2000000), |_i, rec| case(rec));
    ctx.par("weights", ctx.scale(9000, 120000), |_i, rec| weights(rec));
    ctx.par("threads", ctx.scale(3000, 80000), |_i, rec| threads(rec));
    ctx.assumptions.push("the last sample of a fade is not judged (its rounding depends on the block layout); at most 1024 messages wait in the channel".into());
    ctx.finish()
}
