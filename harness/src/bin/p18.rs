//! P18: delays, taps and feedback loops equal their difference equations at every sample.
use fundsp::hacker32::*;
use fundsp::prelude::FeedbackUnit;
use vh::{audio, compare, partition, rate, render, Chans, Ctx, Rec, Rng, Runner};

type U = Box<dyn AudioUnit>;

fn at(x: &[f32], i: i64) -> f64 {
    if i >= 0 && (i as usize) < x.len() {
        x[i as usize] as f64
    } else {
        0.0
    }
}

/// Catmull-Rom in Hermite form.
fn cubic(y0: f64, y1: f64, y2: f64, y3: f64, t: f64) -> f64 {
    let m1 = (y2 - y0) * 0.5;
    let m2 = (y3 - y1) * 0.5;
    let (t2, t3) = (t * t, t * t * t);
    (2.0 * t3 - 3.0 * t2 + 1.0) * y1 + (t3 - 2.0 * t2 + t) * m1 + (-2.0 * t3 + 3.0 * t2) * y2 + (t3 - t2) * m2
}

/// A stretch of history: random runs interrupted by resets and rate changes, that start over.
fn drive(rec: &mut Rec, u: &mut U, sr: f64, total: usize, params: &dyn Fn(&mut Rng, usize, f64) -> Chans, model: &dyn Fn(&Chans, f64) -> Chans, abs: f64, rel: f64) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut sr = sr;
    u.set_sample_rate(sr);
    let segments = if r.chance(0.4) { r.usize(2, 3) } else { 1 };
    for s in 0..segments {
        if s > 0 {
            if r.chance(0.5) {
                u.reset();
            } else {
                sr = loop {
                    let x = rate(r);
                    if x != sr {
                        break x;
                    }
                };
                u.set_sample_rate(sr);
                if r.chance(0.5) {
                    u.reset();
                }
            }
        }
        let n = if s + 1 < segments { r.usize(1, total) } else { total };
        let mut x = vec![audio(r, n)];
        x.extend(params(r, n, sr));
        let steps = partition(r, n);
        let y = render(u.as_mut(), &x, &steps);
        let want = model(&x, sr);
        if let Err(e) = compare(&want, &y, abs, rel) {
            return Err(format!("segment {} at {} Hz: {}", s, sr, e));
        }
        rec.count("samples", n as u64);
    }
    Ok(())
}

fn case_delay(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let k = *r.pick(&[0usize, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 500, 1000]) + r.below(3);
    let t = f64::max(0.0, k as f64 + r.uni(-0.45, 0.45)) / sr;
    let t32 = t as f32;
    rec.ctx = format!("delay({}) at {}", t32, sr);
    let mut u: U = Box::new(delay(t32));
    drive(
        rec,
        &mut u,
        sr,
        k * 2 + r.usize(1, 300),
        &|_, _, _| vec![],
        &|x, sr| {
            let d = (t32 as f64 * sr).round() as i64;
            vec![(0..x[0].len()).map(|i| at(&x[0], i as i64 - d) as f32).collect()]
        },
        0.0,
        0.0,
    )?;
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn case_tick(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let n = r.usize(1, 400);
    let x: Chans = (0..3).map(|_| audio(r, n)).collect();
    let mut u: U = Box::new(multitick::<U3>());
    if r.chance(0.5) {
        u = Box::new(Net::wrap(u));
    }
    let used = r.below(50);
    render(u.as_mut(), &x, &vec![1; Ord::min(used, n)]);
    u.reset();
    let y = render(u.as_mut(), &x, &partition(r, n));
    let want: Chans = x.iter().map(|c| (0..n).map(|i| at(c, i as i64 - 1) as f32).collect()).collect();
    rec.ctx = format!("tick {}", n);
    compare(&want, &y, 0.0, 0.0)?;
    let mut v: U = Box::new(tick() >> tick() | tick() >> delay(0.0) | delay(0.0));
    v.set_sample_rate(rate(r));
    let y = render(v.as_mut(), &x, &partition(r, n));
    for c in 0..3 {
        let d = [2i64, 1, 0][c];
        for i in 0..n {
            if y[c][i] as f64 != at(&x[c], i as i64 - d) {
                return Err(format!("tick chain {} at {}: {} expected {}", c, i, y[c][i], at(&x[c], i as i64 - d)));
            }
        }
    }
    rec.distinct(&format!("tick {} {}", n, x[0][n / 2]));
    Ok(())
}

fn mods(r: &mut Rng, n: usize, sr: f64, lo: f32, hi: f32) -> Vec<f32> {
    let out = r.chance(0.3);
    let (a, b) = if out { (lo - 0.3 * (hi - lo) - 0.0005, hi + 0.3 * (hi - lo) + 0.0005) } else { (lo, hi) };
    let a = if r.chance(0.5) { f32::max(a, 0.0) } else { a };
    match r.below(5) {
        0 => vec![r.f(a, b); n],
        1 => {
            let (w, p) = (r.uni(0.0001, 0.3), r.uni(0.0, 6.0));
            (0..n).map(|i| a + (b - a) * (0.5 + 0.5 * (i as f64 * w + p).sin()) as f32).collect()
        }
        2 => (0..n).map(|_| r.f(a, b)).collect(),
        3 => {
            // Whole samples.
            (0..n).map(|_| (((r.f(a, b) as f64) * sr).round() / sr) as f32).collect()
        }
        _ => {
            let p = r.usize(1, 40);
            let mut v = hi;
            (0..n)
                .map(|i| {
                    if i % p == 0 {
                        v = *r.pick(&[lo, hi, a, b, (lo + hi) * 0.5]);
                    }
                    v
                })
                .collect()
        }
    }
}

fn case_tap(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let k = *r.pick(&[1usize, 2, 5, 7, 13, 21, 30, 46, 55, 60, 61, 62, 63, 64, 110, 120, 125, 126, 250, 254, 500]) + r.below(2);
    let hi = ((k as f64 + r.uni(-0.49, 0.0)) / sr) as f32;
    let lo = *r.pick(&[0.0f32, 0.5, 0.1, 0.9, 1.0]) * hi;
    let taps = *r.pick(&[1usize, 1, 2, 3]);
    let linear = r.chance(0.5);
    let mut u: U = match (linear, taps) {
        (false, 1) => Box::new(tap(lo, hi)),
        (false, 2) => Box::new(multitap::<U2>(lo, hi)),
        (false, _) => Box::new(multitap::<U3>(lo, hi)),
        (true, 1) => Box::new(tap_linear(lo, hi)),
        (true, 2) => Box::new(multitap_linear::<U2>(lo, hi)),
        (true, _) => Box::new(multitap_linear::<U3>(lo, hi)),
    };
    rec.ctx = format!("{} taps {} between {} and {} at {}", if linear { "linear" } else { "cubic" }, taps, lo, hi, sr);
    let total = r.usize(1, 300) + 2 * k;
    drive(
        rec,
        &mut u,
        sr,
        total,
        &|r, n, sr| (0..taps).map(|_| mods(r, n, sr, lo, hi)).collect(),
        &|x, sr| {
            let srf = sr as f32;
            let one = 1.0 / sr;
            let mut y = vec![];
            for i in 0..x[0].len() {
                let mut s = 0.0;
                for c in 1..=taps {
                    let t = x[c][i];
                    let (lo, hi) = if linear { (lo, hi) } else { (f32::max(lo, one as f32 * 1.00001), f32::max(hi, one as f32 * 1.00001)) };
                    let d = (f32::min(f32::max(t, lo), hi) * srf) as f64;
                    let f = d.floor();
                    let j = i as i64 - f as i64;
                    s += if linear {
                        let (a, b) = (at(&x[0], j), at(&x[0], j - 1));
                        a + (b - a) * (d - f)
                    } else {
                        // The sample after the present one is not known, so delays of less than a sample are not possible.
                        cubic(at(&x[0], j + 1), at(&x[0], j), at(&x[0], j - 1), at(&x[0], j - 2), d - f)
                    };
                }
                y.push(s as f32);
            }
            vec![y]
        },
        3e-3,
        1e-4,
    )?;
    rec.count(if linear { "linear_taps" } else { "cubic_taps" }, 1);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Inner loop units.
fn inner(r: &mut Rng, n: usize, sr: f64) -> (U, String) {
    let g = r.f(-0.6, 0.6);
    let d = (r.below(40) as f64 / sr) as f32;
    let k = r.below(5);
    macro_rules! stack {
        ($e:expr) => {
            match n {
                1 => Box::new($e(0u64)) as U,
                2 => Box::new(stacki::<U2, _, _>($e)) as U,
                3 => Box::new(stacki::<U3, _, _>($e)) as U,
                4 => Box::new(stacki::<U4, _, _>($e)) as U,
                8 => Box::new(stacki::<U8, _, _>($e)) as U,
                16 => Box::new(stacki::<U16, _, _>($e)) as U,
                _ => Box::new(stacki::<U32, _, _>($e)) as U,
            }
        };
    }
    let u = match k {
        0 => stack!(|i: u64| pass() * (g * (1.0 - 0.1 * (i % 4) as f32))),
        1 => stack!(|i: u64| delay(d + i as f32 * 0.0004) * g),
        2 => stack!(|i: u64| lowpole_hz(300.0 + 100.0 * i as f32) * g),
        3 => stack!(|_i: u64| shape(Tanh(g))),
        _ => stack!(|i: u64| tick() * g >> fir((0.3, 0.2 + 0.1 * (i % 4) as f32))),
    };
    (u, format!("k{} g{} d{}", k, g, d))
}

fn hadamard(v: &[f64]) -> Vec<f64> {
    let n = v.len();
    (0..n)
        .map(|i| {
            let mut s = 0.0;
            for j in 0..n {
                s += if (i & j).count_ones() % 2 == 0 { v[j] } else { -v[j] };
            }
            s / (n as f64).sqrt()
        })
        .collect()
}

/// Loops against a sample by sample simulation with separate copies of the inner units.
fn case_loop(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let kind = r.below(6);
    // The delay networks need a power of two.
    let n = *r.pick(if kind == 2 || kind == 3 { &[1usize, 2, 4, 4, 8, 16, 32] } else { &[1usize, 1, 2, 2, 3, 4, 8, 16] });
    let (a, da) = inner(r, n, sr);
    let (b, db) = inner(r, n, sr);
    let delay_samples = *r.pick(&[0usize, 1, 2, 3, 8, 16, 31, 32, 63, 64, 65, 100, 128, 200]);
    let dt = f64::max(0.0, delay_samples as f64 + r.uni(-0.4, 0.4)) / sr;
    macro_rules! wrap {
        ($f:ident) => {
            match n {
                1 => Box::new($f::<U1, _>(unit::<U1, U1>(a.clone()))) as U,
                2 => Box::new($f::<U2, _>(unit::<U2, U2>(a.clone()))) as U,
                3 => Box::new(feedback::<U3, _>(unit::<U3, U3>(a.clone()))) as U,
                4 => Box::new($f::<U4, _>(unit::<U4, U4>(a.clone()))) as U,
                8 => Box::new($f::<U8, _>(unit::<U8, U8>(a.clone()))) as U,
                16 => Box::new($f::<U16, _>(unit::<U16, U16>(a.clone()))) as U,
                _ => Box::new($f::<U32, _>(unit::<U32, U32>(a.clone()))) as U,
            }
        };
    }
    macro_rules! wrap2 {
        ($f:ident) => {
            match n {
                1 => Box::new($f::<U1, _, _>(unit::<U1, U1>(a.clone()), unit::<U1, U1>(b.clone()))) as U,
                2 => Box::new($f::<U2, _, _>(unit::<U2, U2>(a.clone()), unit::<U2, U2>(b.clone()))) as U,
                3 => Box::new(feedback2::<U3, _, _>(unit::<U3, U3>(a.clone()), unit::<U3, U3>(b.clone()))) as U,
                4 => Box::new($f::<U4, _, _>(unit::<U4, U4>(a.clone()), unit::<U4, U4>(b.clone()))) as U,
                8 => Box::new($f::<U8, _, _>(unit::<U8, U8>(a.clone()), unit::<U8, U8>(b.clone()))) as U,
                16 => Box::new($f::<U16, _, _>(unit::<U16, U16>(a.clone()), unit::<U16, U16>(b.clone()))) as U,
                _ => Box::new($f::<U32, _, _>(unit::<U32, U32>(a.clone()), unit::<U32, U32>(b.clone()))) as U,
            }
        };
    }
    let mut u: U = match kind {
        0 => wrap!(feedback),
        1 => wrap2!(feedback2),
        2 => wrap!(fdn),
        3 => wrap2!(fdn2),
        _ => Box::new(FeedbackUnit::new(dt, a.clone())),
    };
    let name = ["feedback", "feedback2", "fdn", "fdn2", "FeedbackUnit", "FeedbackUnit"][kind];
    rec.ctx = format!("{} {} channels ({}; {}) delay {} at {}", name, n, da, db, dt, sr);
    u.set_sample_rate(sr);
    let len = r.usize(1, 700);
    if r.chance(0.3) {
        let m = r.usize(1, 200);
        let x: Chans = (0..n).map(|_| audio(r, m)).collect();
        render(u.as_mut(), &x, &partition(r, m));
        u.reset();
    }
    let x: Chans = (0..n).map(|_| audio(r, len)).collect();
    let y = render(u.as_mut(), &x, &partition(r, len));
    let (mut a, mut b) = (a.clone(), b.clone());
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let d = if kind >= 4 { Ord::max(1, (dt * sr).round() as usize) } else { 1 };
    let mut want: Chans = vec![vec![]; n];
    let mut fed: Vec<Vec<f64>> = vec![];
    let mut ib = vec![0.0f32; n];
    let mut ob = vec![0.0f32; n];
    let mut pb = vec![0.0f32; n];
    for i in 0..len {
        for c in 0..n {
            let fb = if i >= d { fed[i - d][c] } else { 0.0 };
            ib[c] = x[c][i] + fb as f32;
        }
        a.tick(&ib, &mut ob);
        for c in 0..n {
            want[c].push(ob[c]);
        }
        let mut f: Vec<f64> = ob.iter().map(|x| *x as f64).collect();
        if kind == 1 || kind == 3 {
            b.tick(&ob, &mut pb);
            f = pb.iter().map(|x| *x as f64).collect();
        }
        if kind == 2 || kind == 3 {
            f = hadamard(&f);
        }
        fed.push(f);
    }
    compare(&want, &y, 1e-4, 1e-4)?;
    rec.count(name, 1);
    rec.count("samples", len as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Nested allpasses: difference equation and allpass nature.
fn case_allnest(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let eta = r.f(-0.8, 0.8);
    let k = r.below(60);
    let t = (k as f64 / sr) as f32;
    let kind = r.below(4);
    let inn: U = match kind {
        0 => Box::new(pass()),
        1 => Box::new(delay(t)),
        2 => Box::new(allpole_delay(r.f(0.2, 2.0))),
        _ => Box::new(allnest_c(r.f(-0.7, 0.7), delay(t))),
    };
    let modulated = r.chance(0.4);
    let mut u: U = if modulated { Box::new(allnest(unit::<U1, U1>(inn.clone()))) } else { Box::new(allnest_c(eta, unit::<U1, U1>(inn.clone()))) };
    u.set_sample_rate(sr);
    let len = r.usize(1, 500);
    let x = audio(r, len);
    let e: Vec<f32> = if modulated { (0..len).map(|i| eta * (i as f32 * 0.05).cos()).collect() } else { vec![eta; len] };
    let input: Chans = if modulated { vec![x.clone(), e.clone()] } else { vec![x.clone()] };
    rec.ctx = format!("allnest eta {} inner {} delay {} modulated {} at {}", eta, kind, k, modulated, sr);
    let y = render(u.as_mut(), &input, &partition(r, len));
    let mut m = inn.clone();
    m.set_sample_rate(sr);
    let mut zz = 0.0f32;
    let mut want = vec![];
    for i in 0..len {
        let v = x[i] - e[i] * zz;
        want.push(e[i] * v + zz);
        let mut o = [0.0f32];
        m.tick(&[v], &mut o);
        zz = o[0];
    }
    compare(&vec![want], &y, 1e-5, 1e-5)?;
    // Energy of the impulse response is one.
    let mut u: U = Box::new(allnest_c(eta, unit::<U1, U1>(inn)));
    u.set_sample_rate(sr);
    let n = 8192;
    let mut x = vec![0.0f32; n];
    x[0] = 1.0;
    let h = render(u.as_mut(), &vec![x], &vh::blocks(n));
    let en: f64 = h[0].iter().map(|x| (*x as f64).powi(2)).sum();
    if (en - 1.0).abs() > 2e-3 {
        return Err(format!("energy of the allpass is {}", en));
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Modulated effects are the sums of their documented delayed voices.
fn case_effects(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let n = r.usize(64, 1200);
    let x = audio(r, n);
    let steps = partition(r, n);
    let d0 = r.f(0.001, 0.004);
    let d1 = d0 + r.f(0.0, 0.003);
    if r.chance(0.5) {
        // Flanger with a constant delay.
        let fb = r.f(-0.9, 0.9);
        let d = r.f(d0, d1);
        rec.ctx = format!("flanger({}, {}, {}) delay {} at {}", fb, d0, d1, d, sr);
        let mut u: U = Box::new(flanger(fb, d0, d1, move |_| d));
        u.set_sample_rate(sr);
        let y = render(u.as_mut(), &vec![x.clone()], &steps);
        let t = (d * sr as f32) as f64;
        let f = t.floor();
        let mut line: Vec<f32> = vec![];
        let mut prev = 0.0f64;
        let mut want = vec![];
        for i in 0..n {
            line.push((x[i] as f64 + prev) as f32);
            let j = i as i64 - f as i64;
            let v = cubic(at(&line, j + 1), at(&line, j), at(&line, j - 1), at(&line, j - 2), t - f);
            prev = (v * fb as f64).tanh();
            want.push((x[i] as f64 + v) as f32);
        }
        compare(&vec![want], &y, 5e-3, 1e-3)?;
    } else {
        // Chorus: within the longest voice, each voice arrives in its interval.
        let (sep, var) = (r.f(0.002, 0.01), if r.chance(0.4) { 0.0 } else { r.f(0.0, 0.001) });
        rec.ctx = format!("chorus {} {} at {}", sep, var, sr);
        let mut u: U = Box::new(chorus(r.u64(), sep, var, r.f(0.1, 1.0)));
        u.set_sample_rate(sr);
        let len = ((sep * 4.0 + var) as f64 * sr) as usize + 40;
        let mut imp = vec![0.0; len];
        imp[0] = 1.0;
        let y = render(u.as_mut(), &vec![imp], &partition(r, len));
        let mut allowed = vec![false; len];
        allowed[0] = true;
        for v in 1..5 {
            let a = ((sep * v as f32) as f64 * sr).floor() as i64 - 3;
            let b = ((sep * v as f32 + var) as f64 * sr).ceil() as i64 + 3;
            for i in Ord::max(a, 0)..=b {
                if (i as usize) < len {
                    allowed[i as usize] = true;
                }
            }
        }
        for i in 0..len {
            if y[0][i].abs() > 1e-6 && !allowed[i] {
                return Err(format!("a voice arrives at sample {} ({})", i, y[0][i]));
            }
        }
        // Gains of the voices.
        let s: f64 = y[0].iter().map(|x| *x as f64).sum();
        if var == 0.0 && (s - 1.0).abs() > 2e-3 {
            return Err(format!("the dry signal and four voices add up to {}", s));
        }
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Long runs: ring buffers wrap many times.
fn case_long(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = 44100.0;
    let k = r.usize(1, 300);
    let t = (k as f64 / sr) as f32;
    let mut u: U = Box::new(delay(t) ^ ((pass() | dc(t)) >> tap_linear(0.0, t)) ^ ((pass() | dc(t)) >> tap(0.0, t)));
    rec.ctx = format!("long run of delay {} samples", k);
    let n = 20000;
    let x = audio(r, n);
    let mut run = Runner::new(u.as_ref());
    let mut y: Chans = vec![vec![]; 3];
    for s in partition(r, n) {
        run.step(u.as_mut(), s, &vec![x.clone()], &mut y);
    }
    for i in 0..n {
        let e = at(&x, i as i64 - k as i64);
        for c in 0..3 {
            if (k > 1 || c != 2) && (y[c][i] as f64 - e).abs() > if c == 0 { 0.0 } else { 3e-3 } {
                return Err(format!("output {} sample {}: {} expected {}", c, i, y[c][i], e));
            }
        }
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Delays of seconds.
fn case_seconds(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = *r.pick(&[44100.0, 96000.0, 192000.0]);
    let k = r.usize(1 << 16, 300000);
    let t = (k as f64 / sr) as f32;
    let mut u: U = Box::new(delay(t) ^ ((pass() | dc(t)) >> tap_linear(0.0, t)) ^ ((pass() | dc(t)) >> tap(0.0, t)));
    u.set_sample_rate(sr);
    rec.ctx = format!("delay of {} samples at {}", k, sr);
    // A slow signal, so that rounding of the tap time does not matter.
    let n = k + 4000;
    let w = r.f(0.0005, 0.002);
    let x: Vec<f32> = (0..n).map(|i| (i as f32 * w).cos()).collect();
    let mut steps = vec![64; n / 64];
    steps.extend(partition(r, n % 64));
    let y = render(u.as_mut(), &vec![x.clone()], &steps);
    let d = (t as f64 * sr).round() as i64;
    for i in 0..n {
        let e = at(&x, i as i64 - d);
        if y[0][i] as f64 != e {
            return Err(format!("delay sample {}: {} expected {}", i, y[0][i], e));
        }
        if (i as i64 - d).abs() > 3 {
            for c in 1..3 {
                if (y[c][i] as f64 - e).abs() > 1e-2 {
                    return Err(format!("output {} sample {}: {} expected {}", c, i, y[c][i], e));
                }
            }
        }
    }
    rec.count("samples", n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P18", "distinct delays, taps, loops and effects with parameters, sample rate and block layout");
    let n = c.scale(6, 60);
    c.par("delay", 3000 * n, |_, rec| case_delay(rec));
    c.par("tick", 500 * n, |_, rec| case_tick(rec));
    c.par("tap", 6000 * n, |_, rec| case_tap(rec));
    c.par("loop", 5000 * n, |_, rec| case_loop(rec));
    c.par("allnest", 600 * n, |_, rec| case_allnest(rec));
    c.par("effects", 1500 * n, |_, rec| case_effects(rec));
    c.par("long", 60 * n, |_, rec| case_long(rec));
    c.par("seconds", 6 * n, |_, rec| case_seconds(rec));
    c.finish();
}
