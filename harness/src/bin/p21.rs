//! P21: dynamics processors, followers, meters and envelopes follow their documented response.
use fundsp::hacker::*;
use std::sync::{Arc, Mutex};
use vh::{audio, partition, rate, render, Ctx, Rec, Rng, TICK};

type U = Box<dyn AudioUnit>;

/// Audio with peaks at all levels.
fn loud(r: &mut Rng, n: usize) -> Vec<f32> {
    let top = r.lf(0.5, 100.0);
    let mut x = audio(r, n);
    let mode = r.below(4);
    for i in 0..n {
        match mode {
            0 => x[i] *= top,
            1 => {
                if r.chance(0.01) {
                    x[i] = top * if r.chance(0.5) { 1.0 } else { -1.0 };
                }
            }
            2 => x[i] *= 1.0 + (top - 1.0) * (i as f32 / n as f32),
            _ => {
                if (i / 300) % 2 == 1 {
                    x[i] *= top
                }
            }
        }
    }
    x
}

fn case_limiter(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r) };
    // Attack of at least two samples.
    let attack = match r.below(3) {
        0 => (r.usize(2, 30) as f64 / sr) as f32,
        _ => r.log(2.0 / sr, 0.02) as f32,
    };
    let release = r.log(0.00001, 0.1) as f32;
    let stereo = r.chance(0.5);
    let mut u: U = if stereo { Box::new(limiter_stereo(attack, release)) } else { Box::new(limiter(attack, release)) };
    u.set_sample_rate(sr);
    let ch = u.inputs();
    rec.ctx = format!("limiter({}, {}) of {} channels at {} Hz", attack, release, ch, sr);
    let lat = (attack as f64 * sr).round().max(1.0) as usize;
    for round in 0..2 {
        let n = r.usize(1, 3 * lat + 1500);
        let quiet = r.chance(0.25);
        let x: Vec<Vec<f32>> = (0..ch)
            .map(|_| {
                let v = loud(r, n);
                if quiet {
                    v.iter().map(|x| f32::clamp(*x, -0.9, 0.9)).collect()
                } else {
                    v
                }
            })
            .collect();
        let y = render(u.as_mut(), &x, &partition(r, n));
        for i in 0..n {
            let mut gain = f64::NAN;
            for c in 0..ch {
                let v = y[c][i];
                if !(v.abs() <= 1.000001) {
                    return Err(format!("round {} channel {} sample {} is {}", round, c, i, v));
                }
                let w = if i >= lat { x[c][i - lat] } else { 0.0 };
                if v.abs() > w.abs() * 1.000001 || v * w < 0.0 || (w.abs() > 1e-20 && v == 0.0) {
                    return Err(format!("round {} channel {} sample {} is {} when the input {} samples before is {}", round, c, i, v, lat, w));
                }
                if quiet && (v - w).abs() > w.abs() * 1e-6 {
                    return Err(format!("round {} channel {} sample {} is {} though {} needs no limiting", round, c, i, v, w));
                }
                // One gain for all channels.
                if w.abs() > 1e-3 {
                    let g = v as f64 / w as f64;
                    if gain.is_nan() {
                        gain = g;
                    } else if (g - gain).abs() > 1e-4 * gain {
                        return Err(format!("round {} sample {} channels have gains {} and {}", round, i, gain, g));
                    }
                }
            }
        }
        u.reset();
        rec.count("limited samples", (n * ch) as u64);
    }
    // Recovery: quiet for long after a burst.
    let t = (release as f64 * sr * 8.0) as usize + 3 * lat + 20;
    if t < 20_000 {
        let mut x: Vec<Vec<f32>> = (0..ch).map(|_| loud(r, 400)).collect();
        for c in x.iter_mut() {
            for i in 0..t {
                c.push((i as f32 * 0.3).sin() * 0.8);
            }
        }
        let n = 400 + t;
        let y = render(u.as_mut(), &x, &partition(r, n));
        let (v, w) = (y[0][n - 1], x[0][n - 1 - lat]);
        if (v - w).abs() > 0.02 * w.abs() {
            return Err(format!("output is still {} for {} after {} samples", v, w, t));
        }
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Followers: halfway in the response time, monotonic, no overshoot.
fn case_follow(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r) };
    let limit = |r: &mut Rng| (r.log(0.5, 20_000.0) / sr) as f32;
    let (mut a, mut b) = (limit(r), limit(r));
    let sym = r.chance(0.5);
    let wide = r.chance(0.5);
    if sym {
        b = a;
    }
    let mut u: U = match (sym, wide) {
        (true, true) => Box::new(follow(a)),
        (true, false) => Box::new(fundsp::hacker32::follow(a)),
        (false, true) => Box::new(afollow(a, b)),
        (false, false) => Box::new(fundsp::hacker32::afollow(a, b)),
    };
    u.set_sample_rate(sr);
    let mut how = "built";
    if r.chance(0.3) {
        a = limit(r);
        b = if sym { a } else { limit(r) };
        u.set(if sym { Setting::time(a) } else { Setting::attack_release(a, b) });
        how = "set";
    }
    rec.ctx = format!("{} {} {} attack {} release {} at {} Hz", if sym { "follow" } else { "afollow" }, if wide { "f64" } else { "f32" }, how, a, b, sr);
    for round in 0..2 {
        let mut v = r.f(-2.0, 2.0);
        // The first sample is taken at once.
        let y = render(u.as_mut(), &vec![vec![v]], &vec![if r.chance(0.5) { 1 } else { TICK }]);
        if (y[0][0] - v).abs() > 1e-5 {
            return Err(format!("round {} starts at {} instead of {}", round, y[0][0], v));
        }
        for step in 0..2 {
            let w = v + r.f(0.5, 2.0) * if r.chance(0.5) { 1.0 } else { -1.0 };
            let up = w > v;
            let time = if up { a } else { b } as f64 * sr;
            let n = (time * 5.5) as usize + 60;
            let y = render(u.as_mut(), &vec![vec![w; n]], &partition(r, n));
            let y = &y[0];
            let s = if up { 1.0 } else { -1.0 };
            // In single precision each of the three poles stalls where its step rounds to nothing.
            let stall = if wide { 0.0 } else { 1.5 * 2.4e-7 * (time + 1.0) as f32 * w.abs().max(v.abs()).max(1.0) };
            let eps = 1e-5 + stall;
            let mut half = None;
            let mut last = v;
            for i in 0..n {
                if (y[i] - last) * s < -eps {
                    return Err(format!("round {} step {} from {} to {} is not monotonic: {} after {}", round, step, v, w, y[i], last));
                }
                if (y[i] - w) * s > eps || (y[i] - v) * s < -eps {
                    return Err(format!("round {} step {} from {} to {} overshoots: {}", round, step, v, w, y[i]));
                }
                if half.is_none() && (y[i] - 0.5 * (v + w)) * s >= 0.0 {
                    half = Some(i + 1);
                }
                last = y[i];
            }
            let h = half.unwrap_or(usize::MAX) as f64;
            let want = time.max(1.0);
            if (h - want).abs() > 1.6 + 0.02 * want {
                return Err(format!("round {} step {} from {} to {} is halfway in {} samples, expected {}", round, step, v, w, h, want));
            }
            if (y[n - 1] - w).abs() > 2e-3 * (w - v).abs() + stall {
                return Err(format!("round {} step {} from {} to {} has reached only {}", round, step, v, w, y[n - 1]));
            }
            // Settle.
            let m = (time * 8.0) as usize + 100;
            let y = render(u.as_mut(), &vec![vec![w; m]], &partition(r, m));
            v = w;
            if (y[0][m - 1] - w).abs() > 1e-4 + stall {
                return Err(format!("round {} step {} settles at {} instead of {}", round, step, y[0][m - 1], w));
            }
            v += 0.0;
            rec.count("samples", (n + m) as u64);
            if !wide {
                // Rounding keeps the state from settling exactly.
                break;
            }
        }
        // Arbitrary input: output stays in the range seen.
        u.reset();
        let n = 500;
        let x = audio(r, n);
        let y = render(u.as_mut(), &vec![x.clone()], &partition(r, n));
        let (mut lo, mut hi) = (f32::MAX, f32::MIN);
        for i in 0..n {
            lo = f32::min(lo, x[i]);
            hi = f32::max(hi, x[i]);
            if y[0][i] < lo - 1e-5 || y[0][i] > hi + 1e-5 {
                return Err(format!("round {} sample {} is {} outside {}...{}", round, i, y[0][i], lo, hi));
            }
        }
        u.reset();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn case_declick(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let wide = r.chance(0.5);
    let (t, mut u): (f32, U) = if r.chance(0.2) {
        (0.01, if wide { Box::new(declick()) } else { Box::new(fundsp::hacker32::declick()) })
    } else {
        let t = if r.chance(0.1) { 0.0 } else { r.log(0.5 / sr, 0.1) as f32 };
        (t, if wide { Box::new(declick_s(t)) } else { Box::new(fundsp::hacker32::declick_s(t)) })
    };
    u.set_sample_rate(sr);
    rec.ctx = format!("declick {} s {} at {} Hz", t, if wide { "f64" } else { "f32" }, sr);
    for round in 0..2 {
        let d = t as f64 * sr;
        let n = d as usize + r.usize(1, 300);
        let x: Vec<f32> = audio(r, n);
        let y = &render(u.as_mut(), &vec![x.clone()], &partition(r, n))[0];
        let tol = if wide { 1e-6 } else { 1e-6 + 1e-7 * d };
        for i in 0..n {
            let p = i as f64 / d;
            let curve = |p: f64| if p >= 1.0 { 1.0 } else { p * p * p * (p * (p * 6.0 - 15.0) + 10.0) };
            let w = x[i] as f64 * if d > 0.0 { curve(p) } else { 1.0 };
            if (y[i] as f64 - w).abs() > tol {
                return Err(format!("round {} sample {} of {} is {}, expected {}", round, i, x[i], y[i], w));
            }
            if i as f64 > d + 1.0 + d * 1e-4 && y[i] != x[i] {
                return Err(format!("round {} sample {} is {}, not {}, after the fade", round, i, y[i], x[i]));
            }
        }
        u.reset();
        rec.count("samples", n as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn case_meter(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let kind = r.below(3);
    let t = r.log(2.0 / sr, 0.2);
    let m = match kind {
        0 => Meter::Sample,
        1 => Meter::Peak(t),
        _ => Meter::Rms(t),
    };
    let sh = shared(0.0);
    let mut u: U = Box::new(meter(m));
    let mut v: U = Box::new(monitor(&sh, m));
    u.set_sample_rate(sr);
    v.set_sample_rate(sr);
    rec.ctx = format!("meter {} timescale {} at {} Hz", ["sample", "peak", "rms"][kind], t, sr);
    for round in 0..2 {
        let n = r.usize(1, 3000);
        let x = audio(r, n);
        let y = &render(u.as_mut(), &vec![x.clone()], &partition(r, n))[0];
        let k = 0.5f64.powf(1.0 / (t * sr));
        let mut s = 0.0f64;
        let mut want = vec![];
        for i in 0..n {
            let a = x[i] as f64;
            s = match kind {
                0 => a,
                1 => (s * k).max(a.abs()),
                _ => s * k + a * a * (1.0 - k),
            };
            let w = if kind == 2 { s.sqrt() } else { s };
            want.push(w);
            if (y[i] as f64 - w).abs() > if kind == 0 { 0.0 } else { 2e-3 } {
                return Err(format!("round {} sample {} is {}, expected {}", round, i, y[i], w));
            }
        }
        let mut i = 0;
        for s in partition(r, n) {
            let k = if s == TICK { 1 } else { s };
            let z = render(v.as_mut(), &vec![x[i..i + k].to_vec()], &vec![s]);
            if z[0] != x[i..i + k] {
                return Err(format!("round {} monitor changes the signal at {}", round, i));
            }
            i += k;
            if i > 0 && (sh.value() as f64 - want[i - 1]).abs() > if kind == 0 { 0.0 } else { 2e-3 } {
                return Err(format!("round {} monitor reports {} after sample {}, expected {}", round, sh.value(), i, want[i - 1]));
            }
        }
        u.reset();
        v.reset();
        rec.count("samples", 2 * n as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// A smooth function of bounded slope.
fn curve(seed: u64, t: f64) -> f64 {
    let (a, b) = (1.0 + (seed % 7) as f64, 0.3 + (seed % 11) as f64);
    (t * a * 10.0).sin() * 0.7 + (t * b * 3.0).cos() + t
}

/// Envelopes sample their function at jittered points and interpolate between them.
fn case_envelope(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r) };
    let seed = r.u64();
    let wide = r.chance(0.6);
    let kind = r.below(5);
    let interval = match r.below(3) {
        0 => 0.002,
        _ => r.log(3.0 / sr, 0.05) as f32,
    };
    type Log = Arc<Mutex<Vec<(f64, Vec<f32>)>>>;
    let log: Log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    macro_rules! build {
        ($p:ident, $f:ty) => {{
            match kind {
                0 => Box::new(
                    $p::envelope(move |t: $f| {
                        l.lock().unwrap().push((t as f64, vec![]));
                        curve(seed, t as f64) as $f
                    })
                    .interval(interval),
                ) as U,
                1 => Box::new(
                    $p::lfo(move |t: $f| {
                        l.lock().unwrap().push((t as f64, vec![]));
                        (curve(seed, t as f64) as $f, curve(seed ^ 77, t as f64) as $f, t)
                    })
                    .interval(interval),
                ),
                2 => Box::new(
                    $p::envelope2(move |t: $f, x: $f| {
                        l.lock().unwrap().push((t as f64, vec![x as f32]));
                        curve(seed, t as f64) as $f + x
                    })
                    .interval(interval),
                ),
                3 => Box::new(
                    $p::lfo3(move |t: $f, x: $f, y: $f| {
                        l.lock().unwrap().push((t as f64, vec![x as f32, y as f32]));
                        (curve(seed, t as f64) as $f + x, y)
                    })
                    .interval(interval),
                ),
                _ => Box::new(
                    $p::envelope_in(move |t: $f, x: &Frame<f32, U3>| {
                        l.lock().unwrap().push((t as f64, vec![x[0], x[1], x[2]]));
                        (x[2] as $f, curve(seed, t as f64) as $f)
                    })
                    .interval(interval),
                ),
            }
        }};
    }
    use fundsp::hacker as h64;
    use fundsp::hacker32 as h32;
    let mut u: U = if wide { build!(h64, f64) } else { build!(h32, f32) };
    u.set_sample_rate(sr);
    if r.chance(0.5) {
        u.ping(false, AttoHash::new(r.u64()));
    }
    let iv = interval as f64;
    rec.ctx = format!("envelope kind {} interval {} at {} Hz {}", kind, interval, sr, if wide { "f64" } else { "f32" });
    for round in 0..2 {
        // The function is sampled at zero at reset or at the first sample.
        log.lock().unwrap().clear();
        u.reset();
        let n = r.usize(1, 2500);
        let x: Vec<Vec<f32>> = (0..u.inputs()).map(|_| audio(r, n)).collect();
        let y = render(u.as_mut(), &x, &partition(r, n));
        let pts = log.lock().unwrap().clone();
        if pts.is_empty() || pts[0].0 != 0.0 {
            return Err(format!("round {} first sample point is {:?}", round, pts.first()));
        }
        let mut mean = 0.0;
        for i in 1..pts.len() {
            let d = pts[i].0 - pts[i - 1].0;
            mean += d;
            if d < iv * 0.7499 - 1e-6 || d > iv * 1.2501 + 1e-6 {
                return Err(format!("round {} interval {} between sample points, expected {} plus or minus a quarter", round, d, iv));
            }
        }
        if pts.len() > 40 {
            mean /= (pts.len() - 1) as f64;
            let sd = iv * 0.5 / 12f64.sqrt() / (pts.len() as f64).sqrt();
            if (mean - iv).abs() > 6.0 * sd + 1e-7 {
                return Err(format!("round {} average interval is {}, expected {}", round, mean, iv));
            }
        }
        let drift = if wide { 1e-12 } else { 6e-8 * n as f64 / sr * (n as f64 + (n as f64 / (iv * sr))) * 0.5 + 1e-6 };
        let val = |k: usize, c: usize| -> f64 {
            let (t, i) = &pts[k];
            match (kind, c) {
                (0, _) => curve(seed, *t),
                (1, 0) => curve(seed, *t),
                (1, 1) => curve(seed ^ 77, *t),
                (1, _) => *t,
                (2, _) => curve(seed, *t) + i[0] as f64,
                (3, 0) => curve(seed, *t) + i[0] as f64,
                (3, _) => i[1] as f64,
                (_, 0) => i[2] as f64,
                _ => curve(seed, *t),
            }
        };
        let mut k = 0;
        for i in 0..n {
            let t = i as f64 / sr;
            while k + 2 < pts.len() && pts[k + 1].0 <= t {
                k += 1;
            }
            if k + 1 >= pts.len() {
                return Err(format!("round {} no sample point after {}", round, t));
            }
            if pts[k + 1].0 < t - drift - 1e-9 {
                return Err(format!("round {} output {} s is past the last sample point {}", round, t, pts[k + 1].0));
            }
            for c in 0..y.len() {
                let f = |k: usize, t: f64| {
                    let (t0, t1) = (pts[k].0, pts[k + 1].0);
                    val(k, c) + (val(k + 1, c) - val(k, c)) * (t - t0) / (t1 - t0)
                };
                let w = f(k, t);
                let slope = (k.saturating_sub(1)..Ord::min(k + 2, pts.len() - 1))
                    .map(|k| (val(k + 1, c) - val(k, c)).abs() / (pts[k + 1].0 - pts[k].0))
                    .fold(0.0, f64::max);
                let tol = 2e-5 + slope * drift * 2.0 + 1.5e-7 * (iv * sr + 8.0) * w.abs().max(1.0);
                let g = y[c][i] as f64;
                let mut ok = (g - w).abs() <= tol;
                // At a sample point both segments apply, and inputs may jump.
                if !ok && k > 0 && (t - pts[k].0).abs() <= drift + 1e-9 {
                    ok = (g - f(k - 1, t)).abs() <= tol + 1e-3;
                }
                if !ok && k + 2 < pts.len() && (pts[k + 1].0 - t).abs() <= drift + 1e-9 {
                    ok = (g - f(k + 1, t)).abs() <= tol + 1e-3;
                }
                if !ok {
                    return Err(format!("round {} output {} at {} s is {}, expected {} within {}", round, c, t, g, w, tol));
                }
            }
        }
        // The input of a sample point is the one at the start of its segment.
        for k in 1..pts.len() {
            if kind < 2 {
                break;
            }
            let at = if k == 1 { 0.0 } else { pts[k - 1].0 * sr };
            let i = at.ceil() as usize;
            let near = drift * sr + 1e-6;
            let ok = |i: usize| i < n && (0..x.len()).all(|c| x[c][i] == pts[k].1[c]);
            let alt = (at - near).ceil() as usize;
            let alt2 = (at + near).ceil() as usize;
            if i < n && alt2 < n && !ok(i) && !ok(alt) && !ok(alt2) {
                return Err(format!("round {} point {} at {} s does not see the input at sample {}", round, k, pts[k].0, i));
            }
        }
        rec.count("samples", n as u64);
        rec.count("sample points", pts.len() as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Attack, decay, sustain and release.
fn case_adsr(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.6) { 44100.0 } else { rate(r) };
    let (a, d, s, l) = (r.log(0.005, 0.08) as f32, r.log(0.005, 0.08) as f32, r.f(0.05, 1.0), r.log(0.005, 0.08) as f32);
    let mut u: U = Box::new(adsr_live(a, d, s, l));
    u.set_sample_rate(sr);
    rec.ctx = format!("adsr_live({}, {}, {}, {}) at {} Hz", a, d, s, l, sr);
    for round in 0..2 {
        // Gate: optional silence, note, gap, note.
        let first = if r.chance(0.5) { 0.0 } else { r.uni(0.005, 0.1) };
        let on1 = first;
        let off1 = on1 + (a + d) as f64 + r.uni(0.02, 0.06);
        let on2 = off1 + l as f64 + r.uni(0.02, 0.05);
        let off2 = on2 + (a + d) as f64 + r.uni(0.02, 0.06);
        let end = off2 + l as f64 + 0.03;
        let n = (end * sr) as usize;
        let hi = r.f(0.1, 2.0);
        let lo = if r.chance(0.5) { 0.0 } else { -1.0 };
        let gate = |t: f64| (t >= on1 && t < off1) || (t >= on2 && t < off2);
        let x: Vec<f32> = (0..n).map(|i| if gate(i as f64 / sr) { hi } else { lo }).collect();
        let y = &render(u.as_mut(), &vec![x.clone()], &partition(r, n))[0];
        let (a, d, s, l) = (a as f64, d as f64, s as f64, l as f64);
        let ads = |t: f64| {
            if t < 0.0 {
                0.0
            } else if t < a {
                t / a
            } else if t < a + d {
                1.0 + (s - 1.0) * (t - a) / d
            } else {
                s
            }
        };
        let note = |t: f64, on: f64, off: f64| {
            if t < off {
                ads(t - on)
            } else {
                ads(t - on) * (1.0 - (t - off) / l).max(0.0)
            }
        };
        let ideal = |t: f64| {
            if t < on2 {
                if t < on1 {
                    0.0
                } else {
                    note(t, on1, off1)
                }
            } else {
                note(t, on2, off2)
            }
        };
        for i in 0..n {
            let t = i as f64 / sr;
            let v = y[i] as f64;
            if !(-1e-4..=1.0 + 1e-4).contains(&v) {
                return Err(format!("round {} at {} s is {}", round, t, v));
            }
            // The function is sampled every 1.5 to 2.5 ms; the gate is seen at sample points.
            let (mut lo, mut hi) = (f64::MAX, f64::MIN);
            for k in -80..=30 {
                let w = ideal(t + k as f64 * 0.0001);
                lo = lo.min(w);
                hi = hi.max(w);
            }
            let tol = 0.015;
            if v < lo - tol || v > hi + tol {
                return Err(format!("round {} at {} s is {}, expected {} ({}...{}) with gate on {}...{} and {}...{}", round, t, v, ideal(t), lo, hi, on1, off1, on2, off2));
            }
        }
        u.reset();
        rec.count("samples", n as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// The function of an update node runs first at time zero and then whenever the interval has passed, ahead of the audio.
fn case_update(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let dt = match r.below(4) {
        0 => (0.3 / sr) as f32,
        1 => (r.usize(1, 64) as f64 / sr) as f32,
        _ => r.lf((0.5 / sr) as f32, (600.0 / sr) as f32),
    };
    let log: Arc<Mutex<Vec<(f32, f32)>>> = Arc::new(Mutex::new(vec![]));
    let l2 = log.clone();
    let f = move |t: f32, d: f32, x: &mut Constant<U1>| {
        let mut l = l2.lock().unwrap();
        l.push((t, d));
        x.set_scalar(l.len() as f32);
    };
    let narrow = r.chance(0.5);
    let mut u: U = if narrow { Box::new(fundsp::hacker32::update(constant(0.0), dt, f)) } else { Box::new(update(constant(0.0), dt, f)) };
    u.set_sample_rate(sr);
    rec.ctx = format!("update every {} s at {} Hz", dt, sr);
    let rounds = r.usize(1, 3);
    for round in 0..rounds {
        log.lock().unwrap().clear();
        let n = r.usize(1, 3000);
        let (mut pos, mut last, mut steps) = (0usize, None::<usize>, 0usize);
        let mut seen = 0;
        let empty: Vec<Vec<f32>> = vec![];
        for st in partition(r, n) {
            let k = if st == TICK { 1 } else { st };
            let y = render(u.as_mut(), &empty, &[st]);
            steps += 1;
            let l = log.lock().unwrap().clone();
            let called = l.len() - seen;
            if called > 1 {
                return Err(format!("round {} sample {}: {} calls in one step", round, pos, called));
            }
            let eps = 1e-6 + 1e-6 * steps as f64;
            match last {
                None => {
                    if (called == 1) != (k > 0) {
                        return Err(format!("round {}: {} calls in the first step of {} samples", round, called, k));
                    }
                }
                Some(p) => {
                    let gap = (pos - p) as f64 / sr;
                    let want = dt as f64;
                    if (called == 1 && gap < want * (1.0 - eps) - 1e-9) || (called == 0 && gap > want * (1.0 + eps) + 1e-9) {
                        return Err(format!("round {} sample {}: {} calls {} s after the previous one", round, pos, called, gap));
                    }
                }
            }
            if called == 1 {
                let (t, d) = (l[l.len() - 1].0 as f64, l[l.len() - 1].1 as f64);
                let (wt, wd) = (pos as f64 / sr, (pos - last.unwrap_or(pos)) as f64 / sr);
                if (t - wt).abs() > eps * wt + 1e-9 || (d - wd).abs() > eps * wd + 1e-9 {
                    return Err(format!("round {} sample {}: update at {} after {}, expected {} after {}", round, pos, t, d, wt, wd));
                }
                last = Some(pos);
                rec.count("updates", 1);
            }
            seen = l.len();
            if y[0].len() != k || y[0].iter().any(|v| *v != seen as f32) {
                return Err(format!("round {} sample {}: output {:?} after {} updates", round, pos, y[0].first(), seen));
            }
            pos += k;
        }
        u.reset();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P21", "distinct dynamics units with times, rates and signals");
    let n = c.scale(8, 100);
    c.par("limiter", 2000 * n, |_, rec| case_limiter(rec));
    c.par("follow", 300 * n, |_, rec| case_follow(rec));
    c.par("declick", 500 * n, |_, rec| case_declick(rec));
    c.par("meter", 500 * n, |_, rec| case_meter(rec));
    c.par("envelope", 1000 * n, |_, rec| case_envelope(rec));
    c.par("update", 300 * n, |_, rec| case_update(rec));
    c.par("adsr", 200 * n, |_, rec| case_adsr(rec));
    c.finish();
}
