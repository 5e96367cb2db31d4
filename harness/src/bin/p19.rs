//! P19: oscillators keep frequency, phase and range, and contain the harmonics of their definition.
use fundsp::hacker::*;
use fundsp::wavetable::*;
use std::sync::{Arc, OnceLock};
use vh::{partition, rate, render, Chans, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;
const TAU: f64 = std::f64::consts::TAU;

/// A frequency signal: constant, stepped, gliding or noisy; optionally zero, negative or beyond Nyquist.
fn freq(r: &mut Rng, n: usize, lo: f64, hi: f64, signed: bool) -> Vec<f32> {
    let one = |r: &mut Rng| -> f64 {
        let x = r.log(lo, hi);
        if signed {
            match r.below(8) {
                0 => 0.0,
                1 | 2 => -x,
                _ => x,
            }
        } else {
            x
        }
    };
    let mut v = one(r);
    match r.below(4) {
        0 => vec![v as f32; n],
        1 => (0..n)
            .map(|_| {
                if r.chance(0.02) {
                    v = one(r);
                }
                v as f32
            })
            .collect(),
        2 => {
            let w = one(r);
            (0..n).map(|i| (v + (w - v) * i as f64 / n as f64) as f32).collect()
        }
        _ => (0..n).map(|_| one(r) as f32).collect(),
    }
}

fn blep(t: f64, dt: f64) -> f64 {
    if dt <= 0.0 {
        // Without a positive increment there is no correction.
        return 0.0;
    }
    if t < dt {
        let z = t / dt;
        z + z - z * z - 1.0
    } else if t > 1.0 - dt {
        let z = (t - 1.0) / dt;
        z + z + z * z + 1.0
    } else {
        0.0
    }
}

fn fr(x: f64) -> f64 {
    x - x.floor()
}

/// Value is explained by the model at a phase within the tolerance.
fn near(y: f64, phase: f64, eps: f64, tol: f64, f: &dyn Fn(f64) -> f64) -> Result<(), f64> {
    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
    for k in -4..=4 {
        let v = f(fr(phase + eps * k as f64 / 4.0));
        lo = lo.min(v);
        hi = hi.max(v);
    }
    let f0 = fr(phase);
    if f0 < eps || f0 > 1.0 - eps {
        // The wrap is within reach.
        for v in [f(0.0), f(1.0 - 1e-12)] {
            lo = lo.min(v);
            hi = hi.max(v);
        }
    }
    if y >= lo - tol && y <= hi + tol {
        Ok(())
    } else {
        Err(f(fr(phase)))
    }
}

/// Sine, ramp and PolyBLEP oscillators in both precisions.
fn case_plain(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let kind = r.below(5);
    let wide = r.chance(0.5);
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r) };
    let p = match r.below(4) {
        0 => 0.0,
        1 => *r.pick(&[0.25f32, 0.5, 0.75]),
        _ => r.f(0.0, 1.0),
    };
    let by_setting = r.chance(0.3);
    let mut u: U = if by_setting {
        let s = Setting::phase(p);
        macro_rules! b {
            ($e:expr) => {{
                let mut e = $e;
                e.set(s);
                e.reset();
                Box::new(e) as U
            }};
        }
        match (kind, wide) {
            (0, true) => b!(sine()),
            (0, false) => b!(fundsp::hacker32::sine()),
            (1, true) => b!(ramp()),
            (1, false) => b!(fundsp::hacker32::ramp()),
            (2, true) => b!(poly_saw()),
            (2, false) => b!(fundsp::hacker32::poly_saw()),
            (3, true) => b!(poly_square()),
            (3, false) => b!(fundsp::hacker32::poly_square()),
            (_, true) => b!(poly_pulse()),
            (_, false) => b!(fundsp::hacker32::poly_pulse()),
        }
    } else if r.chance(0.4) {
        use fundsp::oscillator as o;
        match (kind, wide) {
            (0, true) => Box::new(An(o::Sine::<f64>::with_phase(p))),
            (0, false) => Box::new(An(o::Sine::<f32>::with_phase(p))),
            (1, true) => Box::new(An(o::Ramp::<f64>::with_phase(p))),
            (1, false) => Box::new(An(o::Ramp::<f32>::with_phase(p))),
            (2, true) => Box::new(An(o::PolySaw::<f64>::with_phase(p))),
            (2, false) => Box::new(An(o::PolySaw::<f32>::with_phase(p))),
            (3, true) => Box::new(An(o::PolySquare::<f64>::with_phase(p))),
            (3, false) => Box::new(An(o::PolySquare::<f32>::with_phase(p))),
            (_, true) => Box::new(An(o::PolyPulse::<f64>::with_phase(p))),
            (_, false) => Box::new(An(o::PolyPulse::<f32>::with_phase(p))),
        }
    } else {
        match (kind, wide) {
            (0, true) => Box::new(sine().phase(p)),
            (0, false) => Box::new(fundsp::hacker32::sine().phase(p)),
            (1, true) => Box::new(ramp().phase(p)),
            (1, false) => Box::new(fundsp::hacker32::ramp().phase(p)),
            (2, true) => Box::new(poly_saw().phase(p)),
            (2, false) => Box::new(fundsp::hacker32::poly_saw().phase(p)),
            (3, true) => Box::new(poly_square().phase(p)),
            (3, false) => Box::new(fundsp::hacker32::poly_square().phase(p)),
            (_, true) => Box::new(poly_pulse().phase(p)),
            (_, false) => Box::new(fundsp::hacker32::poly_pulse().phase(p)),
        }
    };
    let name = ["sine", "ramp", "poly_saw", "poly_square", "poly_pulse"][kind];
    rec.ctx = format!("{} {} phase {} at {} Hz", name, if wide { "f64" } else { "f32" }, p, sr);
    u.set_sample_rate(sr);
    if kind > 1 {
        // Keep the pulse edges apart.
        rec.ctx.push_str(" (poly)");
    }
    for round in 0..2 {
        let n = r.usize(1, 600);
        let hi = if kind < 2 { sr * 0.9 } else { sr * 0.2 };
        let f = freq(r, n, 0.01, hi, true);
        let mut x: Chans = vec![f.clone()];
        if kind == 4 {
            let w = if r.chance(0.5) { vec![r.f(0.25, 0.75); n] } else { (0..n).map(|_| r.f(0.21, 0.79)).collect() };
            x.push(w);
        }
        let st = partition(r, n);
        let y = render(u.as_mut(), &x, &st);
        let mut phase = p as f64;
        let mut drift = 0.0f64;
        for i in 0..n {
            let d = f[i] as f64 / sr;
            let v = y[0][i] as f64;
            // Blocks accumulate up to 64 increments before wrapping.
            let eps = if wide { 1e-5 } else { 4e-6 + drift };
            let w = if kind == 4 { x[1][i] as f64 } else { 0.5 };
            let m: Box<dyn Fn(f64) -> f64> = match kind {
                0 => Box::new(|q| (q * TAU).sin()),
                1 => Box::new(|q| q),
                2 => Box::new(move |q| 2.0 * q - 1.0 - blep(q, d)),
                _ => Box::new(move |q| (if q < w { 1.0 } else { -1.0 }) + blep(q, d) - blep(fr(q - w), d)),
            };
            // An edge shorter than the uncertainty of phase is judged by range only.
            let gap = |e: f64| {
                let t = fr(phase - e);
                t.min(1.0 - t) < eps + d.abs()
            };
            let blurred = kind >= 2 && d.abs() < 8.0 * eps && (gap(0.0) || (kind >= 3 && gap(w)));
            let judged = if blurred { Ok(()) } else { near(v, phase, eps, 3e-6 + eps, &*m) };
            if let Err(want) = judged {
                return Err(format!("round {} sample {} frequency {} is {}, expected {} at phase {} within {}", round, i, f[i], v, want, phase, eps));
            }
            let (lo, hi) = if kind == 1 { (0.0, 1.0) } else { (-1.0 - 1e-5, 1.0 + 1e-5) };
            if v < lo || v > hi {
                return Err(format!("round {} sample {} is {}, out of range", round, i, v));
            }
            phase = fr(phase + d);
            drift += 3e-8 + 1.2e-7 * d.abs() + if kind == 0 { 64.0 * d.abs() * 1.2e-7 } else { 0.0 };
        }
        u.reset();
        rec.count("samples", n as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// No drift over a long run in double precision; the phase is a fraction of the true count of cycles.
fn case_long(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let f = r.log(0.05, sr * 0.45) as f32 * if r.chance(0.4) { -1.0 } else { 1.0 };
    let p = r.f(0.0, 1.0);
    let which = r.below(2);
    let single = r.chance(0.5);
    use fundsp::prelude as pre;
    let mut u: U = match (which, single) {
        (0, false) => Box::new(constant(f) >> ramp().phase(p)),
        (0, true) => Box::new(constant(f) >> pre::ramp::<f32>().phase(p)),
        (_, false) => Box::new(constant(f) >> sine().phase(p)),
        _ => Box::new(constant(f) >> pre::sine::<f32>().phase(p)),
    };
    rec.ctx = format!("{} {} at {} Hz phase {} rate {}", if single { "f32" } else { "f64" }, ["ramp", "sine"][which], f, p, sr);
    u.set_sample_rate(sr);
    let n = r.usize(20_000, 200_000);
    let st = if r.chance(0.4) { vec![vh::TICK; n] } else { partition(r, n) };
    let y = render(u.as_mut(), &vec![], &st);
    let d = f as f64 / sr;
    let mut i = 0;
    while i < n {
        let phase = fr(p as f64 + fr(d * i as f64));
        // Single precision accumulates error.
        let e = if single { 5e-6 + 5e-7 * i as f64 } else { 5e-6 };
        let m: &dyn Fn(f64) -> f64 = if which == 0 { &|q| q } else { &|q| (q * TAU).sin() };
        if let Err(want) = near(y[0][i] as f64, phase, e, 3e-6 + if which == 1 { 20.0 * e * e } else { 0.0 }, m) {
            return Err(format!("sample {} is {}, expected {}", i, y[0][i], want));
        }
        i += r.usize(1, 50);
    }
    rec.count("samples", n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Definition of a wavetable: partials with phase and amplitude, pitch range, density.
struct Def {
    min: f64,
    max: f64,
    per: f64,
    phase: Box<dyn Fn(u32) -> f64 + Sync + Send>,
    amp: Box<dyn Fn(f64, u32) -> f64 + Sync + Send>,
}

/// The partials of each table, normalized.
struct Model {
    pitch: Vec<f64>,
    parts: Vec<Vec<(usize, f64, f64)>>,
}

/// Tables are at least four times oversampled and read with a four point interpolator optimized for that,
/// which attenuates the highest partials. Its response at a fraction of the table rate.
fn droop(x: f64) -> f64 {
    let n = 64;
    (0..n)
        .map(|k| {
            let w = (k as f64 + 0.5) / n as f64;
            let a = |j: f64| (TAU * x * (j - w)).cos();
            let z = w - 0.5;
            let (e1, o1, e2, o2) = (a(1.0) + a(0.0), a(1.0) - a(0.0), a(2.0) + a(-1.0), a(2.0) - a(-1.0));
            let c0 = e1 * 0.46567255 + e2 * 0.03432730;
            let c1 = o1 * 0.53743831 + o2 * 0.15429463;
            let c2 = e1 * -0.25194210 + e2 * 0.25194745;
            let c3 = o1 * -0.46896070 + o2 * 0.15578801;
            let c4 = e1 * 0.00986988 + e2 * -0.00989340;
            (((c4 * z + c3) * z + c2) * z + c1) * z + c0
        })
        .sum::<f64>()
        / n as f64
}

impl Model {
    fn new(d: &Def) -> Model {
        let mut pitch = vec![];
        let mut parts: Vec<Vec<(usize, f64, f64)>> = vec![];
        let mut top = 0.0f64;
        let mut p = d.min;
        while p <= d.max {
            let h = (22_000.0 / p).floor() as usize;
            let mut v = vec![];
            for i in 1..=h {
                let t = f64::clamp((22_000.0 - p * i as f64) / 2000.0, 0.0, 1.0);
                let s = t * t * t * (t * (t * 6.0 - 15.0) + 10.0);
                let a = (d.amp)(p, i as u32) * s;
                if a > 0.0 {
                    v.push((i, a, (d.phase)(i as u32)));
                }
            }
            // The peak of the cycle.
            let len = (4 * h).next_power_of_two().clamp(32, 8192);
            let sines: Vec<f64> = (0..len).map(|i| (TAU * i as f64 / len as f64).sin()).collect();
            let mut cycle = vec![0.0f64; len];
            for (i, a, ph) in &v {
                let (c, s) = ((TAU * ph).cos() * a, (TAU * ph).sin() * a);
                for k in 0..len {
                    let j = (k * i) % len;
                    cycle[k] += c * sines[j] + s * sines[(j + len / 4) % len];
                }
            }
            top = cycle.iter().fold(top, |m, x| m.max(x.abs()));
            pitch.push(p);
            parts.push(v);
            p *= 2f64.powf(1.0 / d.per);
        }
        if top > 0.0 {
            for (v, p) in parts.iter_mut().zip(&pitch) {
                let h = (22_000.0 / p).floor() as usize;
                let len = (4 * h).next_power_of_two().clamp(32, 8192);
                for q in v.iter_mut() {
                    q.1 *= droop(q.0 as f64 / len as f64) / top;
                }
            }
        }
        Model { pitch, parts }
    }
    fn at(&self, table: usize, phase: f64) -> f64 {
        self.parts[table].iter().map(|(i, a, ph)| a * (TAU * (fr(*i as f64 * phase) + ph)).sin()).sum()
    }
    /// Tables ordered by pitch: the mix for a frequency uses the two tables above it.
    fn read(&self, f: f64, phase: f64) -> f64 {
        let last = self.pitch.len() - 3;
        let mut t = 0;
        while t < last && self.pitch[t + 1] <= f {
            t += 1;
        }
        let w = f64::clamp((f - self.pitch[t]) / (self.pitch[t + 1] - self.pitch[t]), 0.0, 1.0);
        (1.0 - w) * self.at(t + 1, phase) + w * self.at(t + 2, phase)
    }
}

const NAMES: [&str; 6] = ["saw", "square", "triangle", "organ", "soft_saw", "hammond"];

fn models() -> &'static Vec<Model> {
    static M: OnceLock<Vec<Model>> = OnceLock::new();
    M.get_or_init(|| {
        let d = |phase: Box<dyn Fn(u32) -> f64 + Sync + Send>, amp: Box<dyn Fn(f64, u32) -> f64 + Sync + Send>| Model::new(&Def { min: 20.0, max: 20_000.0, per: 4.0, phase, amp });
        let soft = |i: u32| if i & 3 == 3 || i & 1 == 0 { 0.5 } else { 0.0 };
        vec![
            d(Box::new(|i| if i & 1 == 1 { 0.0 } else { 0.5 }), Box::new(|_, i| 1.0 / i as f64)),
            d(Box::new(|_| 0.0), Box::new(|_, i| if i & 1 == 1 { 1.0 / i as f64 } else { 0.0 })),
            d(Box::new(|i| if i & 3 == 3 { 0.5 } else { 0.0 }), Box::new(|_, i| if i & 1 == 1 { 1.0 / (i * i) as f64 } else { 0.0 })),
            d(
                Box::new(soft),
                Box::new(|_, i| {
                    let j = i >> i.trailing_zeros();
                    1.0 / (i as f64 + (j as f64).powi(3))
                }),
            ),
            d(Box::new(soft), Box::new(|_, i| 1.0 / (i * i) as f64)),
            d(
                Box::new(|_| 0.0),
                Box::new(|_, i| {
                    let z = i.trailing_zeros() as f64;
                    let f = 1.0 / ((z + 1.0) * (z + 1.0));
                    match i >> i.trailing_zeros() {
                        _ if i <= 3 => 1.0,
                        1 | 3 => f,
                        9 => 0.2 * f,
                        _ => 0.0,
                    }
                }),
            ),
        ]
    })
}

fn std_table(k: usize) -> Arc<Wavetable> {
    match k {
        0 => saw_table(),
        1 => square_table(),
        2 => triangle_table(),
        3 => organ_table(),
        4 => soft_saw_table(),
        _ => hammond_table(),
    }
}

fn named(k: usize) -> An<WaveSynth<U1>> {
    match k {
        0 => saw(),
        1 => square(),
        2 => triangle(),
        3 => organ(),
        4 => soft_saw(),
        _ => hammond(),
    }
}

/// Wavetable oscillators: the phase output keeps the frequency, and the output is the bandlimited wave at that phase.
fn case_table(rec: &mut Rec, custom: bool) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let k = r.below(6);
    let own;
    let (table, model, lo, hi): (Arc<Wavetable>, &Model, f64, f64) = if custom {
        let count = r.usize(1, 30);
        let per = *r.pick(&[1.0, 2.0, 3.0, 4.0]);
        let min = r.log(60.0, 500.0);
        let max = min * r.uni(9.0, 40.0);
        let ph: Vec<f64> = (0..64).map(|_| r.f64()).collect();
        let am: Vec<f64> = (0..64).map(|i| if i < count { r.f64() / (1 + i) as f64 } else { 0.0 }).collect();
        let (ph2, am2) = (ph.clone(), am.clone());
        let t = Wavetable::new(min, max, per, &|i| ph[(i as usize - 1) % 64], &|_, i| if i <= 64 { am[i as usize - 1] } else { 0.0 });
        own = Model::new(&Def { min, max, per, phase: Box::new(move |i| ph2[(i as usize - 1) % 64]), amp: Box::new(move |_, i| if i <= 64 { am2[i as usize - 1] } else { 0.0 }) });
        (Arc::new(t), &own, min * 0.5, max * 1.1)
    } else {
        (std_table(k), &models()[k], 10.0, 21_000.0)
    };
    let sr = *r.pick(&[44100.0, 44100.0, 48000.0, 88200.0, 96000.0]);
    let name = if custom { "custom".into() } else { NAMES[k].to_string() };
    rec.ctx = format!("{} at {} Hz", name, sr);
    let p = r.f(0.0, 1.0);
    let mut u: U = Box::new(An(WaveSynth::<U2>::new(table.clone())));
    u.set(Setting::phase(p));
    u.reset();
    u.set_sample_rate(sr);
    let mut v: U = if custom { Box::new(An(WaveSynth::<U1>::new(table.clone())).phase(p)) } else { Box::new(named(k).phase(p)) };
    v.set_sample_rate(sr);
    for round in 0..2 {
        let n = r.usize(1, 200);
        let signed = r.chance(0.3);
        let f = freq(r, n, lo, hi, signed);
        let st = partition(r, n);
        let y = render(u.as_mut(), &vec![f.clone()], &st);
        let z = render(v.as_mut(), &vec![f.clone()], &st);
        let mut phase = p as f64;
        let mut drift = 1e-5;
        for i in 0..n {
            let d = f[i] as f64 / sr;
            phase = fr(phase + d);
            drift += 1e-7 + 64.0 * d.abs() * 2.4e-7;
            let q = y[1][i] as f64;
            let e = (q - phase).abs();
            if e.min(1.0 - e) > drift || !(0.0..=1.0).contains(&q) {
                return Err(format!("round {} sample {} frequency {}: phase {} expected {}", round, i, f[i], q, phase));
            }
            if y[0][i] != z[0][i] {
                return Err(format!("round {} sample {}: one-output synth gives {} and two-output synth {}", round, i, z[0][i], y[0][i]));
            }
            // A vector of 8 samples is read with the frequency of its first sample.
            let got = y[0][i] as f64;
            let mut ok = false;
            let mut first = 0.0;
            let mut last = f32::NAN;
            for j in (i.saturating_sub(7)..=i).rev() {
                if f[j] == last {
                    continue;
                }
                last = f[j];
                let w = model.read(f[j].abs() as f64, q);
                if j == i {
                    first = w;
                }
                // Interpolation of the table and single precision phase.
                if (got - w).abs() < TOL {
                    ok = true;
                    break;
                }
            }
            if !ok {
                return Err(format!("round {} sample {} frequencies {:?} phase {} is {}, expected {}", round, i, &f[i.saturating_sub(7)..=i], q, got, first));
            }
            if got.abs() > 1.02 {
                return Err(format!("round {} sample {} is {}", round, i, got));
            }
        }
        u.reset();
        v.reset();
        rec.count("samples", n as u64);
    }
    rec.distinct(&format!("{} {}", rec.ctx, p));
    Ok(())
}

const TOL: f64 = 5e-3;

/// A wavetable made from a single cycle plays that cycle.
fn case_from_wave(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let bits = r.usize(5, 13);
    let len = 1usize << bits;
    let count = r.usize(1, Ord::min(20, len / 2 - 1));
    let parts: Vec<(f64, f64)> = (0..count).map(|i| (r.uni(-1.0, 1.0) / (1 + i) as f64, r.f64())).collect();
    let scale = r.log(0.01, 100.0);
    let cyc = |q: f64| -> f64 { parts.iter().enumerate().map(|(i, (a, p))| a * (TAU * ((i + 1) as f64 * q + p)).sin()).sum::<f64>() * scale };
    let wave: Vec<f32> = (0..len).map(|i| cyc(i as f64 / len as f64) as f32).collect();
    let min = r.log(40.0, 200.0);
    let (max, per) = (2000.0 + min * 10.0, *r.pick(&[2.0, 4.0]));
    let t = Wavetable::from_wave(min, max, per, &wave);
    let (am, ph) = (parts.clone(), parts.clone());
    let m = Model::new(&Def {
        min,
        max,
        per,
        phase: Box::new(move |i| ph.get(i as usize - 1).map_or(0.0, |x| if x.0 < 0.0 { x.1 + 0.5 } else { x.1 })),
        amp: Box::new(move |_, i| am.get(i as usize - 1).map_or(0.0, |x| x.0.abs())),
    });
    rec.ctx = format!("from a cycle of {} samples with {} partials from {} Hz", len, count, min);
    let p = r.f(0.0, 1.0);
    let f = r.log(min * 0.7, max * 1.1) as f32;
    let n = 120;
    let st = partition(r, n);
    let mut u: U = Box::new(An(WaveSynth::<U2>::new(Arc::new(t))).phase(p));
    let y = render(u.as_mut(), &vec![vec![f; n]], &st);
    for i in 0..n {
        let w = m.read(f as f64, y[1][i] as f64);
        let g = y[0][i] as f64;
        if (g - w).abs() > TOL {
            return Err(format!("at {} Hz phase {} is {}, expected {}", f, y[1][i], g, w));
        }
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Synthesis from phase, and the pulse wave as the difference of two saws.
fn case_phase(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = *r.pick(&[44100.0, 48000.0, 96000.0, 22050.0, 11025.0]);
    let n = r.usize(1, 200);
    let st = partition(r, n);
    let k = r.below(6);
    let f = r.log(20.0, Ord::min(18_000, (sr * 0.45) as usize) as f64);
    let d = f / sr * if r.chance(0.3) { -1.0 } else { 1.0 };
    let p = r.f64();
    let raw = r.chance(0.3);
    let base = if raw { r.int(-3, 3) as f64 } else { 0.0 };
    rec.ctx = format!("{} from phase {} at {} Hz, rate {}", NAMES[k], p, f, sr);
    let x: Vec<f32> = (0..n).map(|i| (fr(p + d * i as f64) + base) as f32).collect();
    let mut u: U = Box::new(An(PhaseSynth::new(std_table(k))));
    u.set_sample_rate(sr);
    for round in 0..2 {
        let y = render(u.as_mut(), &vec![x.clone()], &st);
        let m = &models()[k];
        for i in 0..n {
            let q = fr(x[i] as f64);
            let fq = if i == 0 { sr * 0.5 } else { f };
            let w = m.read(fq, q);
            if (y[0][i] as f64 - w).abs() > 2.0 * TOL {
                return Err(format!("round {} sample {} phase {} is {}, expected {}", round, i, q, y[0][i], w));
            }
        }
        u.reset();
    }
    // Pulse.
    let width = r.f(0.05, 0.95);
    let mut u: U = Box::new(pulse().phase(p as f32));
    u.set_sample_rate(sr);
    rec.ctx = format!("pulse at {} Hz width {} phase {} rate {}", f, width, p, sr);
    for round in 0..2 {
        let y = render(u.as_mut(), &vec![vec![f as f32; n], vec![width; n]], &st);
        let m = &models()[0];
        let mut drift = 1e-5;
        for i in 0..n {
            let q = fr(p + (i + 1) as f64 * f / sr);
            drift += 1e-7 + 64.0 * f / sr * 2.4e-7;
            if i == 0 {
                continue;
            }
            let g = |q: f64| m.read(f, fr(q)) - m.read(f, fr(q + width as f64));
            if let Err(w) = near(y[0][i] as f64, q, drift, 2.0 * TOL, &g) {
                return Err(format!("round {} sample {} phase {} is {}, expected {}", round, i, q, y[0][i], w));
            }
        }
        u.reset();
    }
    rec.count("samples", 4 * n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// The discrete summation formula equals the sum of its partials.
fn case_dsf(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let spacing = if r.chance(0.5) { 1.0 } else { 2.0 };
    let rough = r.f(0.05, 0.9);
    let p = r.f(0.0, 1.0);
    let input = r.chance(0.5);
    let mut u: U = match (spacing == 1.0, input) {
        (true, true) => Box::new(dsf_saw().phase(p)),
        (true, false) => Box::new(dsf_saw_r(rough).phase(p)),
        (false, true) => Box::new(dsf_square().phase(p)),
        (false, false) => Box::new(dsf_square_r(rough).phase(p)),
    };
    u.set_sample_rate(sr);
    rec.ctx = format!("dsf spacing {} roughness {} input {} phase {} rate {}", spacing, rough, input, p, sr);
    let n = r.usize(1, 200);
    let f = freq(r, n, 50.0, 10_000.0, false);
    let rr: Vec<f32> = if input && r.chance(0.5) { (0..n).map(|_| r.f(0.05, 0.9)).collect() } else { vec![rough; n] };
    let mut x = vec![f.clone()];
    if input {
        x.push(rr.clone());
    }
    let st = partition(r, n);
    for round in 0..2 {
        let y = render(u.as_mut(), &x, &st);
        let mut phase = p as f64;
        let mut drift = 1e-6;
        for i in 0..n {
            let d = f[i] as f64 / sr;
            phase = fr(phase + d);
            drift += 1e-7 + 1e-7 * d;
            let a = rr[i] as f64;
            let c = 22_050.0 / f[i] as f64 / spacing;
            let mut ok = false;
            let mut first = 0.0;
            for e in [0.0, -1e-4, 1e-4] {
                let top = (c + e).floor() as usize;
                let g = |q: f64| (0..=top).map(|k| a.powi(k as i32) * (TAU * fr(q * (1.0 + k as f64 * spacing))).sin()).sum::<f64>();
                match near(y[0][i] as f64, phase, drift, 1e-4, &g) {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(w) if e == 0.0 => first = w,
                    _ => (),
                }
            }
            if !ok {
                return Err(format!("round {} sample {} frequency {} roughness {} phase {} is {}, expected {}", round, i, f[i], a, phase, y[0][i], first));
            }
        }
        u.reset();
    }
    rec.count("samples", 2 * n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Zero and negative frequencies: finite, in range, phase moving backwards.
fn case_extreme(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let k = r.below(8);
    let mut u: U = match k {
        0 => Box::new(dsf_saw_r(r.f(0.1, 0.99))),
        1 => Box::new(dsf_square_r(r.f(0.1, 0.99))),
        2 => Box::new(saw()),
        3 => Box::new(triangle()),
        4 => Box::new(poly_saw()),
        5 => Box::new(sine()),
        6 => Box::new(hammond()),
        _ => Box::new(organ()),
    };
    let sr = rate(r);
    u.set_sample_rate(sr);
    rec.ctx = format!("oscillator {} at rate {}", k, sr);
    let n = 100;
    let f: Vec<f32> = (0..n)
        .map(|_| match r.below(4) {
            0 => 0.0,
            1 => r.lf(1e-6, 1e5),
            2 => -r.lf(1e-6, 1e4),
            _ => r.lf(20.0, 2e4),
        })
        .collect();
    let st = partition(r, n);
    let y = render(u.as_mut(), &vec![f.clone()], &st);
    for i in 0..n {
        let lim = if k < 2 { 110.0 } else { 4.0 };
        if !y[0][i].is_finite() || y[0][i].abs() > lim {
            return Err(format!("sample {} at frequency {} is {}", i, f[i], y[0][i]));
        }
    }
    rec.distinct(&format!("{} {}", rec.ctx, f[0]));
    Ok(())
}

/// The plucked string has the requested pitch and decay.
fn case_pluck(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let f = r.log(40.0, sr / 16.0);
    let g = r.log(0.01, 1.0);
    let damp = r.uni(0.0, 1.0);
    let mut u: U = Box::new(pluck(f as f32, g as f32, damp as f32));
    u.set_sample_rate(sr);
    rec.ctx = format!("pluck({}, {}, {}) at {} Hz", f, g, damp, sr);
    // Excitation replaces the built-in noise in half of the cases by adding a stronger periodic burst.
    let period = sr / f;
    let n = (period * 40.0) as usize + 200;
    let x: Vec<f32> = (0..n).map(|i| if (i as f64) < period { 4.0 * (TAU * i as f64 / period).sin() as f32 } else { 0.0 }).collect();
    let st = partition(r, n);
    let y = render(u.as_mut(), &vec![x], &st);
    // Fundamental over a whole number of periods, at two times.
    let span = 4.0 * period;
    let win = span.round() as usize;
    let dft = |at: usize| -> (f64, f64) {
        let (mut c, mut s) = (0.0, 0.0);
        for i in 0..win {
            let h = 0.5 - 0.5 * (TAU * (i as f64 + 0.5) / win as f64).cos();
            let a = TAU * f * (at + i) as f64 / sr;
            c += h * y[0][at + i] as f64 * a.cos();
            s += h * y[0][at + i] as f64 * a.sin();
        }
        (c, s)
    };
    let a = (2.0 * period) as usize;
    let b = a + (16.0 * period) as usize;
    let (p, q) = (dft(a), dft(b));
    let turn = (q.1.atan2(q.0) - p.1.atan2(p.0)) / TAU;
    let turn = turn - turn.round();
    let cycles = 16.0;
    // Detuning in cycles over the interval.
    if turn.abs() > 0.05 {
        return Err(format!("fundamental is off by {} cycles over {}", turn, cycles));
    }
    let w = TAU * f / sr;
    let al = (2.0 - damp) / 2.0;
    let be = (1.0 - al) / 2.0;
    let h = al + 2.0 * be * w.cos();
    let want = (g.powf(1.0 / f) * h).powf((b - a) as f64 / period);
    let got = q.0.hypot(q.1) / p.0.hypot(p.1);
    if (got / want - 1.0).abs() > 0.05 {
        return Err(format!("fundamental decays by {} over {} cycles, expected {}", got, cycles, want));
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// The dynamical systems follow their equations and stay on their attractor.
fn case_chaos(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let which = r.below(2);
    let mut u: U = if which == 0 { Box::new(rossler()) } else { Box::new(lorenz()) };
    u.set_sample_rate(sr);
    let hi = if which == 0 { 0.02 } else { 0.01 };
    let n = r.usize(1, 300);
    let f: Vec<f32> = freq(r, n, 1.0, hi * sr, false);
    rec.ctx = format!("{} at {} Hz", ["rossler", "lorenz"][which], sr);
    let st = partition(r, n);
    let y = render(u.as_mut(), &vec![f.clone()], &st);
    let c = [0.05757, 0.05107][which];
    // The initial position in x is pseudorandom in 0...1: solve it from the first output.
    let dt0 = f[0] as f64 / sr * [2.91, 1.0][which];
    let y0 = y[0][0] as f64 / c;
    let mut s = [if which == 0 { y0 + 2.0 * dt0 } else { (y0 - 10.0 * dt0) / (1.0 - 10.0 * dt0) }, 1.0, 1.0];
    if s[0] < -1e-3 || s[0] > 1.0 + 1e-3 {
        return Err(format!("initial position is {}", s[0]));
    }
    for i in 0..n {
        let dt = f[i] as f64 / sr * [2.91, 1.0][which];
        let d = if which == 0 {
            [-s[1] - s[2], s[0] + 0.15 * s[1], 0.2 + s[2] * (s[0] - 10.0)]
        } else {
            [10.0 * (s[1] - s[0]), s[0] * (28.0 - s[2]) - s[1], s[0] * s[1] - 8.0 / 3.0 * s[2]]
        };
        for k in 0..3 {
            s[k] += d[k] * dt;
        }
        if (s[0] * c - y[0][i] as f64).abs() > 2e-3 {
            return Err(format!("sample {} is {}, expected {}", i, y[0][i], s[0] * c));
        }
    }
    rec.count("samples", n as u64);
    rec.distinct(&format!("{} {}", rec.ctx, f[0]));
    Ok(())
}

/// Single and parallel reads of one table agree at the same phase.
fn case_reads(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let count = r.usize(1, 40);
    let (min, oct) = (r.log(60.0, 2000.0), r.uni(3.2, 5.0));
    let am: Vec<f64> = (0..64).map(|i| if i < count { r.f64() } else { 0.0 }).collect();
    let ph: Vec<f64> = (0..64).map(|_| r.f64()).collect();
    let max = min * oct.exp2();
    let t = Wavetable::new(min, max, 1.0, &|i| ph[(i as usize - 1) % 64], &|_, i| if i <= 64 { am[i as usize - 1] } else { 0.0 });
    rec.ctx = format!("table of {} partials from {} Hz", count, min);
    let mut hint = 0;
    for _ in 0..300 {
        let table = r.usize(0, 3);
        let edge = r.chance(0.5);
        let len = (1 << r.usize(5, 13)) as f32;
        let q: [f32; 8] = core::array::from_fn(|_| {
            let x: f32 = if edge { ((r.int(-3, 3) as f32 + r.f(0.0, 1.0)) / len).rem_euclid(1.0) } else { r.f(0.0, 1.0) };
            if x < 1.0 { x } else { 0.0 }
        });
        let v = t.at_simd(table, F32x::new(q));
        let f = (min * 0.5 * r.uni(0.0, oct + 2.0).exp2()) as f32;
        let (w, h) = t.read_simd(hint, f, F32x::new(q));
        for j in 0..8 {
            let x = t.at(table, q[j]);
            if (x - v.as_array_ref()[j]).abs() > 2e-5 {
                return Err(format!("table {} at phase {} is {} but {} in parallel", table, q[j], x, v.as_array_ref()[j]));
            }
            let (x, g) = t.read(hint, f, q[j]);
            if (x - w.as_array_ref()[j]).abs() > 2e-5 || g != h {
                return Err(format!("frequency {} at phase {} with hint {} is {:?} but {:?} in parallel", f, q[j], hint, (x, g), (w.as_array_ref()[j], h)));
            }
            // The hint is only a hint.
            let (y, g) = t.read(0, f, q[j]);
            if (x - y).abs() > 2e-4 {
                return Err(format!("frequency {} at phase {} is {} with hint {} and {} ({}) without", f, q[j], x, hint, y, g));
            }
        }
        rec.count("table_reads", 16);
        hint = h;
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P19", "distinct oscillators with frequency signals, phases and rates");
    let n = c.scale(8, 100);
    c.par("plain", 6000 * n, |_, rec| case_plain(rec));
    c.par("long", 100 * n, |_, rec| case_long(rec));
    c.par("table", 400 * n, |_, rec| case_table(rec, false));
    c.par("custom", 200 * n, |_, rec| case_table(rec, true));
    c.par("reads", 12 * n, |_, rec| case_reads(rec));
    c.par("from_wave", 200 * n, |_, rec| case_from_wave(rec));
    c.par("phase", 300 * n, |_, rec| case_phase(rec));
    c.par("dsf", 600 * n, |_, rec| case_dsf(rec));
    c.par("extreme", 2000 * n, |_, rec| case_extreme(rec));
    c.par("pluck", 300 * n, |_, rec| case_pluck(rec));
    c.par("chaos", 1000 * n, |_, rec| case_chaos(rec));
    c.finish();
}
