//! P26: units stay finite and bounded, and forget their past.
use fundsp::audiounit::AudioUnit;
use std::collections::BTreeMap;
use std::sync::Mutex;
use vh::catalog::*;
use vh::Kind::*;
use vh::{partition, rate, render, Chans, Ctx, Kind, Rec, Rng};

static PEAKS: Mutex<BTreeMap<String, (f64, f64)>> = Mutex::new(BTreeMap::new());

/// Hostile audio in -1...1.
fn hostile(r: &mut Rng, n: usize) -> Vec<f32> {
    match r.below(9) {
        0 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        1 => vec![if r.chance(0.5) { 1.0 } else { -1.0 }; n],
        2 => (0..n).map(|_| if r.chance(0.5) { 1.0 } else { -1.0 }).collect(),
        3 => (0..n).map(|_| r.f(-1.0, 1.0) * 1e-38).collect(),
        4 => {
            let p = r.usize(2, 300);
            (0..n).map(|i| if (i / p) % 2 == 0 { 1.0 } else { -1.0 }).collect()
        }
        5 => (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
        6 => {
            let mut v = 1.0f32;
            (0..n)
                .map(|_| {
                    v *= -0.97;
                    if r.chance(0.001) {
                        v = 1.0;
                    }
                    v
                })
                .collect()
        }
        7 => {
            let f = r.log(0.0005, 0.5);
            (0..n).map(|i| (i as f64 * f * std::f64::consts::TAU).sin() as f32).collect()
        }
        _ => (0..n).map(|_| r.f(-1.0, 1.0)).collect(),
    }
}

/// Hostile parameter trajectory: extremes, jumps at every rate.
fn param(r: &mut Rng, lo: f32, hi: f32, log: bool, n: usize) -> Vec<f32> {
    let any = |r: &mut Rng| {
        if r.chance(0.2) {
            lo
        } else if r.chance(0.25) {
            hi
        } else if log {
            r.lf(lo, hi)
        } else {
            r.f(lo, hi)
        }
    };
    let p = match r.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.log(0.0005, 0.3),
    };
    let mut v = any(r);
    (0..n)
        .map(|_| {
            if r.chance(p) {
                v = any(r);
            }
            v
        })
        .collect()
}

fn stim(r: &mut Rng, kinds: &[Kind], fm: f32, n: usize) -> Chans {
    kinds
        .iter()
        .map(|k| match *k {
            A => hostile(r, n),
            Gate => (0..n).map(|_| if r.chance(0.5) { 1.0 } else { 0.0 }).collect(),
            C(lo, hi) => vec![r.lf(lo, hi.min(fm)); n],
            F(lo, hi) => param(r, lo, hi.min(fm), true, n),
            L(lo, hi) => param(r, lo, hi, true, n),
            R(lo, hi) => param(r, lo, hi, false, n),
        })
        .collect()
}

/// Units whose own recursion is not safe under fast modulation, by the nature of the algorithm.
fn still_only(name: &str) -> bool {
    ["butterpass", "resonator", "lowrez", "bandrez", "rossler", "lorenz", "dbell", "fbell", "dhighpass", "fhighpass", "dlowpass", "flowpass", "dresonator", "fresonator"]
        .iter()
        .any(|n| name.starts_with(n))
}

/// Units that may remember or sound for long, or for ever.
fn long_memory(name: &str) -> bool {
    // Moog filters self-oscillate, adaptive shapes normalize their level, others have long time constants.
    ["moog", "pluck", "hold", "meter", "resonator", "flowpass_hz", "dresonator_hz"].iter().any(|n| name.starts_with(n)) || name.contains("adaptive")
}

/// Bound relative to the input and to quality and gain parameters.
fn limit(name: &str) -> f64 {
    if name.starts_with("pluck") || name.contains("rez") {
        5000.0
    } else if name.contains("_q") {
        400.0
    } else {
        80.0
    }
}

#[allow(clippy::too_many_arguments)]
fn run(name: &str, rec: &mut Rec, r: &mut Rng, mut u: Box<dyn AudioUnit>, kinds: &[Kind], mut x: Chans, tail: usize, bound: f64, floor: f64, scale: f64) -> Result<(), String> {
    let n = x.first().map_or(4000, |c| c.len());
    // After the input ends parameters stay in place.
    for (k, c) in kinds.iter().zip(x.iter_mut()) {
        let v = if *k == A { 0.0 } else { c[n - 1] };
        c.extend(vec![v; tail]);
    }
    let mut quiet = u.clone();
    let mut z = x.clone();
    for (k, c) in kinds.iter().zip(z.iter_mut()) {
        if *k == A {
            c.fill(0.0);
        }
    }
    let y = render(u.as_mut(), &x, &partition(r, n + tail));
    let mut top = 0.0f64;
    for (c, y) in y.iter().enumerate() {
        for (i, v) in y.iter().enumerate() {
            if !v.is_finite() {
                return Err(format!("output {} sample {} is {}", c, i, v));
            }
            top = top.max(v.abs() as f64);
            if v.abs() as f64 > bound {
                return Err(format!("output {} sample {} is {}, beyond {}", c, i, v, bound));
            }
        }
    }
    let mut rest = 0.0f64;
    if tail > 0 && kinds.contains(&A) {
        let q = render(quiet.as_mut(), &z, &partition(r, n + tail));
        for (c, y) in y.iter().enumerate() {
            for i in n + tail - tail / 8..n + tail {
                let e = (y[i] - q[c][i]).abs() as f64;
                rest = rest.max(e);
                if e > floor {
                    return Err(format!("output {} still remembers the input by {} at {} samples after its end", c, e, i - n));
                }
            }
        }
        rec.count("decays", 1);
    }
    let mut p = PEAKS.lock().unwrap();
    let e = p.entry(name.to_string()).or_insert((0.0, 0.0));
    e.0 = e.0.max(top / scale);
    e.1 = e.1.max(rest);
    rec.count("samples", (n + tail) as u64);
    Ok(())
}

/// Reverb tails die out at about the requested pace.
fn case_reverb(kind: usize, rec: &mut Rec, r: &mut Rng, cal: bool) -> Result<(), String> {
    use fundsp::hacker32::*;
    let sr = *r.pick(&[22050.0, 44100.0, 48000.0]);
    let (room, time, damp, speed) = (r.uni(10.0, 30.0), r.uni(0.3, 2.0), r.uni(0.0, 1.0), r.uni(0.1, 2.0));
    let (p, t, d, q) = (room as f32, time as f32, damp as f32, speed as f32);
    let mut u: Box<dyn AudioUnit> = match kind {
        0 => Box::new(reverb_stereo(p, t, d)),
        1 => Box::new(reverb2_stereo(p, t, d, q, pass())),
        2 => Box::new(reverb3_stereo(t, d, pass())),
        _ => Box::new(reverb4_stereo(p.max(15.0), t)),
    };
    u.set_sample_rate(sr);
    rec.ctx = format!("reverb{} room {} time {} damping {} speed {} at {} Hz", kind + 1, room, time, damp, speed, sr);
    let plain = r.chance(0.7);
    let n = (sr * 0.2) as usize;
    let tail = (sr * time * 2.0) as usize + (sr * 0.3) as usize;
    let mut x: Chans = vec![if plain { (0..n).map(|_| r.f(-1.0, 1.0)).collect() } else { hostile(r, n) }, (0..n).map(|_| r.f(-1.0, 1.0)).collect()];
    for c in x.iter_mut() {
        c.extend(vec![0.0; tail]);
    }
    let y = render(u.as_mut(), &x, &partition(r, n + tail));
    for c in 0..2 {
        for v in y[c].iter() {
            if !v.is_finite() || v.abs() > 20.0 {
                return Err(format!("output {} reaches {}", c, v));
            }
        }
    }
    let rms = |t0: f64, t1: f64| {
        let (a, b) = ((t0 * sr) as usize, (t1 * sr) as usize);
        let e: f64 = (0..2).map(|c| y[c][a..b].iter().map(|v| (*v as f64).powi(2)).sum::<f64>()).sum();
        (e / (b - a) as f64).sqrt().max(1e-12)
    };
    let start = rms(0.15, 0.25);
    let db = |t: f64| 20.0 * (rms(0.2 + t, 0.25 + t) / start).log10();
    let (quarter, whole, twice) = (db(0.25 * time), db(time), db(2.0 * time));
    // Wide around the nominal rate, which is approximate by documentation.
    let (slow, fast) = [(-38.0, -45.0), (-27.0, -36.0), (-18.0, -40.0), (quarter - 6.0, -25.0)][kind];
    if plain && !(twice <= slow && whole >= fast) {
        return Err(format!("level {} dB at a quarter, {} dB at the whole and {} dB at twice the reverberation time", quarter, whole, twice));
    }
    if cal && plain {
        println!("REV {} {:.1} {:.1} {:.1} damp {:.2} time {:.2} room {:.1} peak {:.2}", kind + 1, quarter, whole, twice, damp, time, room, start);
    }
    rec.count("tails", 1);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P26", "distinct units with hostile inputs and parameters");
    let n = c.scale(8, 100);
    let list: Vec<Entry> = all().into_iter().filter(|e| e.flags & SHARED == 0).collect();
    let k = list.len();
    let cal = std::env::var("P26_CAL").is_ok();
    c.par("catalog", k * 4 * n, |i, rec| {
        let e = &list[i % k];
        let r = &mut rec.rng.fork();
        let heavy = e.flags & HEAVY != 0;
        let chaos = matches!(e.name, "rossler" | "lorenz");
        let sr = if e.env == "unit" && heavy || chaos { *r.pick(&[44100.0, 48000.0, 96000.0]) } else { rate(r) };
        let u = e.build(r, sr);
        rec.ctx = format!("{} at {} Hz", e.label(), sr);
        // Either parameters jump, or they stay at extreme values.
        let still = still_only(e.name) || r.chance(0.5);
        let wide = still && !chaos && e.flags & NONLIN == 0;
        let fm = (sr * if wide { 0.499 } else { 0.45 }) as f32;
        let kinds: Vec<Kind> = e
            .kinds
            .iter()
            .map(|k| match *k {
                F(lo, hi) if still => C(if wide { if e.env == "hacker32" && e.name == "butterpass" { 40.0 } else { 1.0 } } else { lo }, if wide { fm } else { hi }),
                L(lo, hi) if wide => L(lo * 0.25, hi * 10.0),
                k => k,
            })
            .collect();
        let len = if heavy { r.usize(2000, 6000) } else { r.usize(1000, 8000) };
        let mut x = stim(r, &kinds, fm, len);
        let mut scale = 1.0;
        for (k, x) in kinds.iter().zip(x.iter_mut()) {
            if let L(..) = k {
                if still {
                    let v = x[0];
                    x.fill(v);
                }
                scale *= 1.0 + x.iter().fold(0.0f64, |a, b| a.max(*b as f64));
            }
            if let (R(..), true) = (k, still) {
                let v = x[0];
                x.fill(v);
            }
        }
        rec.ctx += if wide { " wide" } else if still { " still" } else { " jumping" };
        let tail = if heavy || long_memory(e.name) || wide && kinds.len() > e.kinds.iter().filter(|k| **k == A).count() { 0 } else { (sr * 1.5) as usize };
        let (b, f) = if cal { (1e30, 1e30) } else { (limit(e.name), 0.05) };
        let label = format!("{}{}", e.label(), if wide { "_wide" } else if still { "_still" } else { "" });
        run(&label, rec, r, u, &kinds, x, tail, b * scale, f, scale)?;
        rec.distinct(&rec.ctx.clone());
        Ok(())
    });
    c.par("reverb", 16 * n, |i, rec| {
        let r = &mut rec.rng.fork();
        case_reverb(i % 4, rec, r, cal)
    });
    if cal {
        for (k, v) in PEAKS.lock().unwrap().iter() {
            println!("CAL {:30} {:12.5} {:e}", k, v.0, v.1);
        }
    }
    c.finish();
}
