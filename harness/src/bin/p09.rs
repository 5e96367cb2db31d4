//! P09: Sequencer backend renders what the frontend pushed, once.
use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use vh::seqdrive::{case, Mode};
use vh::{Ctx, Rec};

/// Unit that emits its number once: channel 0 its number, channel 1 one, channel 2 one on every sample.
#[derive(Clone)]
struct Tag {
    value: f32,
    ticks: u64,
    live: Arc<AtomicU64>,
    audio_drops: Arc<AtomicU64>,
}

thread_local! {
    static AUDIO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl Drop for Tag {
    fn drop(&mut self) {
        self.live.fetch_add(1, Ordering::SeqCst);
        if AUDIO.with(|a| a.get()) {
            self.audio_drops.fetch_add(1, Ordering::SeqCst);
        }
    }
}

impl AudioUnit for Tag {
    fn inputs(&self) -> usize {
        0
    }
    fn outputs(&self) -> usize {
        3
    }
    fn reset(&mut self) {
        self.ticks = 0;
    }
    fn set_sample_rate(&mut self, _: f64) {}
    fn tick(&mut self, _input: &[f32], output: &mut [f32]) {
        let first = self.ticks == 0;
        self.ticks += 1;
        output[0] = if first { self.value } else { 0.0 };
        output[1] = if first { 1.0 } else { 0.0 };
        output[2] = 1.0;
    }
    fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
        for i in 0..size {
            let mut f = [0.0; 3];
            self.tick(&[], &mut f);
            for c in 0..3 {
                output.channel_f32_mut(c)[i] = f[c];
            }
        }
    }
    fn get_id(&self) -> u64 {
        900009
    }
    fn route(&mut self, input: &SignalFrame, _f: f64) -> SignalFrame {
        Routing::Generator(0.0).route(input, 3)
    }
    fn footprint(&self) -> usize {
        0
    }
    fn allocate(&mut self) {}
}

/// Frontend and backend on their own threads. What was pushed is rendered exactly once, for exactly as long as asked.
fn threads(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let sr = 44100.0;
    let drops = Arc::new(AtomicU64::new(0));
    let audio_drops = Arc::new(AtomicU64::new(0));
    let mut seq = Sequencer::new(false, 3);
    let mut back = seq.backend();
    let stop = Arc::new(AtomicBool::new(false));
    let rendered = Arc::new(AtomicU64::new(0));
    let (stop2, rend2) = (stop.clone(), rendered.clone());
    let mut r2 = r.fork();
    let audio = std::thread::spawn(move || {
        AUDIO.with(|a| a.set(true));
        let mut sums = [0.0f64; 3];
        let mut frame = [0.0f32; 3];
        let mut buf = BufferVec::new(3);
        let mut last = 0.0;
        let mut done_at: Option<u64> = None;
        loop {
            let n = if r2.chance(0.2) { 1 } else { r2.usize(1, 64) };
            if n == 1 {
                back.tick(&[], &mut frame);
                for c in 0..3 {
                    sums[c] += frame[c] as f64;
                }
                last = frame[2];
            } else {
                back.process(n, &BufferRef::empty(), &mut buf.buffer_mut());
                for c in 0..3 {
                    for x in &buf.channel_f32(c)[..n] {
                        sums[c] += *x as f64;
                    }
                }
                last = buf.channel_f32(2)[n - 1];
            }
            let t = rend2.fetch_add(n as u64, Ordering::SeqCst) + n as u64;
            if stop2.load(Ordering::SeqCst) {
                let d = *done_at.get_or_insert(t);
                // Everything has been sent; longest event is 400 samples and starts within 400 samples.
                if t > d + 2000 {
                    break;
                }
            }
            if r2.chance(0.02) {
                std::thread::yield_now();
            }
        }
        AUDIO.with(|a| a.set(false));
        (sums, last, back)
    });
    let events = r.usize(20, 150);
    let (mut want0, mut want1, mut want2) = (0.0f64, 0.0f64, 0.0f64);
    let mut open = vec![];
    let mut exact = true;
    for k in 0..events {
        let v = r.usize(1, 1000) as f32;
        let tag = Box::new(Tag { value: v, ticks: 0, live: drops.clone(), audio_drops: audio_drops.clone() });
        let len = r.usize(1, 400);
        match r.below(3) {
            0 => {
                // A start in the future cannot be late: it is relative.
                let s = r.usize(0, 400) as f64 / sr;
                seq.push_relative(s, s + len as f64 / sr, Fade::Smooth, 0.0, 0.0, tag);
                want2 += len as f64;
            }
            1 => {
                seq.push_relative(0.0, len as f64 / sr, Fade::Power, 0.0, 0.0, tag);
                want2 += len as f64;
            }
            _ => {
                let id = seq.push_relative(0.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, tag);
                open.push(id);
                exact = false;
            }
        }
        want0 += v as f64;
        want1 += 1.0;
        if !open.is_empty() && r.chance(0.3) {
            let id = open.swap_remove(r.below(open.len()));
            seq.edit_relative(id, 0.5 / 44100.0 + r.usize(1, 100) as f64 / sr, 0.0);
        }
        // Never more than a few hundred messages under way.
        if k % 16 == 0 {
            let t = rendered.load(Ordering::SeqCst);
            let w = r.below(800) as u64;
            while rendered.load(Ordering::SeqCst) < t + w {
                std::thread::yield_now();
            }
        }
    }
    // Let every open event start, then end them.
    let t = rendered.load(Ordering::SeqCst);
    while rendered.load(Ordering::SeqCst) < t + 256 {
        std::thread::yield_now();
    }
    for id in open.drain(..) {
        seq.edit_relative(id, 10.3 / sr, 5.0 / sr);
    }
    stop.store(true, Ordering::SeqCst);
    let (sums, last, back) = audio.join().map_err(|_| "audio thread panicked".to_string())?;
    rec.ctx = format!("{} events, {} samples", events, rendered.load(Ordering::SeqCst));
    rec.count("thread_events", events as u64);
    rec.count("thread_samples", rendered.load(Ordering::SeqCst));
    rec.distinct(&format!("{} {:?}", rec.ctx, sums));
    if sums[1] != want1 {
        return Err(format!("{} event starts rendered, {} events pushed", sums[1], want1));
    }
    if sums[0] != want0 {
        return Err(format!("event sum {} rendered, {} pushed", sums[0], want0));
    }
    if exact && (sums[2] - want2).abs() > 1e-6 {
        return Err(format!("{} event samples rendered, {} scheduled", sums[2], want2));
    }
    if last != 0.0 {
        return Err(format!("events sound after their end: {}", last));
    }
    // Finished units come back to the frontend, they are not freed on the audio thread.
    if audio_drops.load(Ordering::SeqCst) != 0 {
        return Err(format!("{} units were dropped on the audio thread", audio_drops.load(Ordering::SeqCst)));
    }
    drop(back);
    drop(seq);
    let d = drops.load(Ordering::SeqCst);
    if d != events as u64 {
        return Err(format!("{} units were freed out of {}", d, events));
    }
    Ok(())
}

/// A burst of messages between two blocks arrives whole and in order.
fn burst(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut plain = Sequencer::new(false, 1);
    let mut front = Sequencer::new(false, 1);
    let mut back = front.backend();
    let total = r.usize(60, 1900);
    let rounds = r.usize(1, 3);
    rec.ctx = format!("{} bursts of {} messages", rounds, total);
    let mut ids = vec![];
    for round in 0..rounds {
        for _ in 0..total {
            if !ids.is_empty() && r.chance(0.3) {
                let k: usize = r.below(ids.len());
                let (a, b): (EventId, EventId) = ids.swap_remove(k);
                let end = (r.usize(20, 90) as f64 + 0.25) / 44100.0;
                plain.edit_relative(a, end, 0.0);
                front.edit_relative(b, end, 0.0);
            } else {
                let t = (r.usize(0, 90) as f64 + 0.25) / 44100.0;
                let d = (r.usize(1, 90) as f64 + 0.5) / 44100.0;
                let v = r.usize(1, 100) as f32;
                ids.push((plain.push_relative(t, t + d, Fade::Smooth, 0.0, 0.0, Box::new(dc(v))), front.push_relative(t, t + d, Fade::Smooth, 0.0, 0.0, Box::new(dc(v)))));
            }
        }
        let steps = vh::partition(r, 300);
        let y = vh::render(&mut plain, &vec![], &steps);
        let z = vh::render(&mut back, &vec![], &steps);
        vh::compare(&y, &z, 0.5, 0.0).map_err(|e| format!("round {}: {} (sequencer vs backend)", round, e))?;
        rec.count("burst_messages", total as u64);
        ids.clear();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("P09", "a case is nontrivial when the backend rendered a nonzero signal; distinct by history");
    let n = ctx.scale(36000, 1500000);
    ctx.par("split", n, |_i, rec| case(rec, Mode::Split));
    ctx.par("in_net", n / 2, |_i, rec| case(rec, Mode::Net));
    ctx.par("in_net_backend", n / 2, |_i, rec| case(rec, Mode::NetBackend));
    ctx.par("threads", ctx.scale(2400, 90000), |_i, rec| threads(rec));
    ctx.par("burst", ctx.scale(300, 12000), |_i, rec| burst(rec));
    ctx.assumptions.push("fewer than 2048 messages wait in either channel".into());
    ctx.finish()
}
