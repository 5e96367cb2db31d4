//! P08: Sequencer renders every event at its exact time.
use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
use vh::dunit::*;
use vh::seqdrive::{case, Mode};
use vh::{compare, partition, render, Ctx, Rec};

/// The result does not depend on push order or block layout, and many events overlap.
fn order(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let sr = vh::rate(&mut r);
    let n = r.usize(2, 40);
    let mut ev = vec![];
    for _ in 0..n {
        let start = (r.usize(0, 900) as f64 + r.uni(-0.4, 0.4)).max(0.0) / sr;
        let d = (r.usize(1, 600) as f64 + 0.01) / sr;
        let (fi, fo) = (r.uni(0.0, 1.0) * d, r.uni(0.0, 1.0) * d);
        ev.push((start, start + d, r.chance(0.5), if r.chance(0.3) { 0.0 } else { fi }, if r.chance(0.3) { 0.0 } else { fo }, r.u64()));
    }
    if ev.iter().any(|e| [e.0, e.1].iter().any(|t| ((t * sr).fract() - 0.5).abs() < 1e-3)) {
        return Ok(());
    }
    rec.ctx = format!("{} events at {}", n, sr);
    let mut outs = vec![];
    for pass in 0..2 {
        let mut s = Sequencer::new(r.chance(0.5), 1);
        s.set_sample_rate(sr);
        let mut e = ev.clone();
        if pass == 1 {
            for i in (1..e.len()).rev() {
                e.swap(i, r.below(i + 1));
            }
        }
        for x in &e {
            s.push(x.0, x.1, if x.2 { Fade::Smooth } else { Fade::Power }, x.3, x.4, DUnit::boxed(x.5, 0, 1));
        }
        let steps = partition(&mut r, 1700);
        outs.push(render(&mut s, &[], &steps));
    }
    rec.count("permuted_events", n as u64);
    rec.distinct(&rec.ctx.clone());
    compare(&outs[0], &outs[1], 1e-4 * n as f64, 0.0).map(|_| ()).map_err(|e| format!("{} (two push orders and block layouts)", e))
}

/// Events keep their sample far into a long performance.
fn far(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = *r.pick(&[44100.0, 48000.0, 96000.0, 8000.0]);
    let idle = r.usize(1 << 15, 1 << 16);
    let skip = idle * 64;
    let early = r.chance(0.5);
    let mut s = Sequencer::new(false, 1);
    s.set_sample_rate(sr);
    let mut m = vh::seqmodel::SeqModel::new(false, 1);
    m.set_rate(sr);
    let mut ev = vec![];
    for _ in 0..r.usize(1, 6) {
        let a = r.usize(1, 400) as f64 + r.uni(-0.4, 0.4);
        let d = r.usize(1, 300) as f64;
        let f = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 0.5) * d };
        ev.push(((skip as f64 + a) / sr, (skip as f64 + a + d) / sr, f / sr, r.u64()));
    }
    let push = |s: &mut Sequencer| {
        for e in &ev {
            s.push(e.0, e.1, Fade::Smooth, e.2, e.2, DUnit::boxed(e.3, 0, 1));
        }
    };
    rec.ctx = format!("{} events after {} samples at {}, pushed {}", ev.len(), skip, sr, if early { "at the start" } else { "then" });
    if early {
        push(&mut s);
    }
    let mut b = BufferVec::new(1);
    for _ in 0..idle {
        s.process(64, &BufferRef::empty(), &mut b.buffer_mut());
    }
    if !early {
        push(&mut s);
    }
    m.n = skip as u64;
    for e in &ev {
        let mut unit = DRef::new(e.3, 0, 1, true);
        unit.set_rate(sr);
        m.ev.push(vh::seqmodel::Ev { unit, start: e.0, end: e.1, smooth: true, fi: e.2, fo: e.2, done: false });
    }
    let y = render(&mut s, &vec![], &partition(r, 800));
    let want: Vec<f32> = (0..800).map(|_| m.tick()[0]).collect();
    rec.count("samples_skipped", skip as u64);
    rec.distinct(&rec.ctx.clone());
    compare(&vec![want], &y, 2e-3, 1e-3).map(|_| ()).map_err(|e| format!("{} (interpreter vs sequencer)", e))
}

type Grain = (f64, f32, f32, [f32; 3], f32, f32, f32);

/// Granular synthesis: each voice is a gapless train of grains, every grain is an event of the documented length and envelope.
fn grains(rec: &mut Rec) -> Result<(), String> {
    use std::sync::{Arc, Mutex};
    let r = &mut rec.rng.fork();
    let voices = r.usize(1, 8);
    let beat = r.lf(0.005, 0.2);
    let cycle = r.usize(1, 8);
    let sr = *r.pick(&[44100.0, 48000.0, 8000.0]);
    let jitter = if r.chance(0.5) { 0.0 } else { r.f(0.0, 0.1) };
    // The texture generator of the funutd crate recurses without end for some seeds.
    let seed = r.usize(1, 40) as u64;
    let (l0, l1, e) = (r.lf(0.002, 0.02), r.lf(0.002, 0.02), r.f(0.0, 0.95));
    let log: Arc<Mutex<Vec<Grain>>> = Default::default();
    let sink = log.clone();
    let mut g = fundsp::granular::Granular::new(2, voices, beat, cycle, seed, r.f(0.0, 0.2), r.f(0.2, 0.5), jitter, move |t, b, v, x, y, z| {
        let len = l0 + (l1 - l0) * (x * 0.5 + 0.5);
        let env = len * e;
        let level = 0.2 + y * 0.1 + z * 0.05;
        sink.lock().unwrap().push((t, b, v, [x, y, z], len, env, level));
        (len, env, Box::new(dc((level, -level))) as Box<dyn AudioUnit>)
    });
    g.set_sample_rate(sr);
    rec.ctx = format!("granular of {} voices, beat {} cycle {} jitter {} lengths {} {} envelope {} rate {}", voices, beat, cycle, jitter, l0, l1, e, sr);
    let n = r.usize(100, 1500);
    let mut first: Vec<Grain> = vec![];
    for round in 0..2 {
        log.lock().unwrap().clear();
        let y = render(&mut g, &vec![], &partition(r, n));
        let ev = log.lock().unwrap().clone();
        let end = n as f64 / sr;
        for k in 0..voices {
            let place = if voices == 1 { 0.5 } else { k as f64 / (voices - 1) as f64 };
            let v = (place * 2.0 - 1.0) as f32;
            let mut t = (ev[0].4 as f64 - ev[0].5 as f64) * k as f64 / voices as f64;
            for x in ev.iter().filter(|x| x.2 == v) {
                if (x.0 - t).abs() > 1e-9 {
                    return Err(format!("round {} voice {} has a grain at {} instead of {}", round, k, x.0, t));
                }
                if (x.1 as f64 - t / beat as f64).abs() > 1e-5 * (1.0 + x.1 as f64) {
                    return Err(format!("round {} grain at {} is at beat {}", round, t, x.1));
                }
                t = x.0 + x.4 as f64 - x.5 as f64;
            }
            if t < end - 1e-9 {
                return Err(format!("round {} voice {} stops at {} of {}", round, k, t, end));
            }
        }
        if ev.iter().any(|x| x.3.iter().any(|y| !(-1.0..=1.0).contains(y))) {
            return Err("texture value out of range".into());
        }
        if jitter == 0.0 {
            let mut sorted = ev.clone();
            sorted.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.2.total_cmp(&b.2)));
            // Blocks may look ahead differently at the end.
            let m = Ord::min(sorted.len(), first.len());
            if first[..m.saturating_sub(2 * voices)] != sorted[..m.saturating_sub(2 * voices)] {
                return Err("grains differ after reset".into());
            }
            first = sorted;
        }
        for i in 0..n {
            let t = i as f64 / sr;
            let h = 0.5 / sr;
            let mut sum = 0.0;
            let mut murky = false;
            let mut tol = 1e-4;
            for x in &ev {
                let (a, b) = (x.0, x.0 + x.4 as f64);
                if (((a - t) * sr).abs() - 0.5).abs() < 2e-3 || (((b - t) * sr).abs() - 0.5).abs() < 2e-3 {
                    murky = true;
                    break;
                }
                if a <= t + h && b > t + h {
                    let f = |u: f64| (u.clamp(0.0, 1.0) * std::f64::consts::FRAC_PI_2).sin();
                    let env = x.5 as f64;
                    let (p, q) = if env > 0.0 { (f((t - a) / env), f((b - t) / env)) } else { (1.0, 1.0) };
                    sum += x.6 as f64 * p * q;
                    // Fades use an approximation of the sine.
                    tol += 4e-3 * x.6.abs() as f64;
                }
            }
            if !murky && ((y[0][i] as f64 - sum).abs() > tol || (y[1][i] as f64 + sum).abs() > tol) {
                return Err(format!("round {} sample {} is {} {}, expected {}", round, i, y[0][i], y[1][i], sum));
            }
        }
        rec.count("grains", ev.len() as u64);
        g.reset();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("P08", "a case is nontrivial when the sequencer rendered a nonzero signal; distinct by history");
    ctx.par("history", ctx.scale(80000, 3000000), |_i, rec| case(rec, Mode::Plain));
    ctx.par("push_order", ctx.scale(9000, 300000), |_i, rec| order(rec));
    ctx.par("granular", ctx.scale(1500, 40000), |_i, rec| grains(rec));
    ctx.par("far", ctx.scale(40, 2000), |_i, rec| far(rec));
    ctx.assumptions.push("event boundaries closer than 0.001 samples to the midpoint of two samples are not judged; edits only shorten events".into());
    ctx.finish()
}
