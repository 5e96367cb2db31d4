//! P22: spectral processing, oversampling and resampling are faithful.
use fundsp::fft::*;
use fundsp::hacker::*;
use std::sync::{Arc, Mutex};
use vh::{audio, partition, rate, render, Ctx, Rec, Rng};

type C = (f64, f64);
type C32 = num_complex::Complex32;

fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

/// Reference transform in double precision; `sign` is -1 for forward. Unnormalized.
fn dft(x: &mut Vec<C>, sign: f64) {
    let n = x.len();
    if n <= 8 {
        let y: Vec<C> = (0..n)
            .map(|k| {
                let mut s = (0.0, 0.0);
                for j in 0..n {
                    let t = sign * std::f64::consts::TAU * ((k * j) % n) as f64 / n as f64;
                    let p = mul(x[j], (t.cos(), t.sin()));
                    s = (s.0 + p.0, s.1 + p.1);
                }
                s
            })
            .collect();
        *x = y;
        return;
    }
    let mut even: Vec<C> = x.iter().step_by(2).cloned().collect();
    let mut odd: Vec<C> = x.iter().skip(1).step_by(2).cloned().collect();
    dft(&mut even, sign);
    dft(&mut odd, sign);
    for k in 0..n / 2 {
        let t = sign * std::f64::consts::TAU * k as f64 / n as f64;
        let o = mul(odd[k], (t.cos(), t.sin()));
        x[k] = (even[k].0 + o.0, even[k].1 + o.1);
        x[k + n / 2] = (even[k].0 - o.0, even[k].1 - o.1);
    }
}

fn norm(x: &[C]) -> f64 {
    x.iter().map(|c| c.0 * c.0 + c.1 * c.1).sum::<f64>().sqrt()
}

fn case_fft(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let bits = if i < 15 { i + 1 } else { r.usize(1, 13) };
    let n = 1usize << bits;
    rec.ctx = format!("fft length {}", n);
    // Signal: noise, tone, impulse, constant.
    let k = r.below(n);
    let x: Vec<f32> = match r.below(4) {
        0 => (0..n).map(|_| r.f(-1.0, 1.0)).collect(),
        1 => {
            let p = r.uni(0.0, 6.28);
            (0..n).map(|j| (std::f64::consts::TAU * ((k * j) % n) as f64 / n as f64 + p).cos() as f32).collect()
        }
        2 => (0..n).map(|j| if j == k { 1.0 } else { 0.0 }).collect(),
        _ => vec![r.f(-1.0, 1.0); n],
    };
    let mut want: Vec<C> = x.iter().map(|v| (*v as f64, 0.0)).collect();
    dft(&mut want, -1.0);
    let mut data = x.clone();
    data.push(9.0);
    data.push(9.0);
    {
        let s = real_fft(&mut data[..n]);
        if s.len() != n / 2 {
            return Err(format!("real_fft returns {} values", s.len()));
        }
    }
    fix_nyquist(&mut data);
    let tol = 1e-6 * (norm(&want) + 1.0) * (bits as f64 + 1.0).sqrt();
    for k in 0..=n / 2 {
        let g = (data[2 * k] as f64, data[2 * k + 1] as f64);
        if (g.0 - want[k].0).abs() > tol || (g.1 - want[k].1).abs() > tol {
            return Err(format!("real_fft bin {} is {:?}, expected {:?}", k, g, want[k]));
        }
    }
    // Back.
    let mut z: Vec<C32> = (0..n).map(|k| if k <= n / 2 { C32::new(data[2 * k], data[2 * k + 1]) } else { C32::new(77.0, 3.0) }).collect();
    fix_negative(&mut z);
    for k in 0..n {
        let g = (z[k].re as f64, z[k].im as f64);
        if (g.0 - want[k].0).abs() > tol || (g.1 - want[k].1).abs() > tol {
            return Err(format!("fix_negative bin {} is {:?}, expected {:?}", k, g, want[k]));
        }
    }
    inverse_fft(&mut z);
    for j in 0..n {
        if (z[j].re - x[j]).abs() as f64 > 5e-6 || z[j].im.abs() as f64 > 5e-6 {
            return Err(format!("inverse sample {} is {}, expected {}", j, z[j], x[j]));
        }
    }
    // Complex inverse against the definition.
    let mut z: Vec<C32> = (0..n).map(|_| C32::new(r.f(-1.0, 1.0), r.f(-1.0, 1.0))).collect();
    let mut want: Vec<C> = z.iter().map(|v| (v.re as f64, v.im as f64)).collect();
    dft(&mut want, 1.0);
    inverse_fft(&mut z);
    for j in 0..n {
        let w = (want[j].0 / n as f64, want[j].1 / n as f64);
        if (z[j].re as f64 - w.0).abs() > 5e-6 || (z[j].im as f64 - w.1).abs() > 5e-6 {
            return Err(format!("inverse_fft sample {} is {}, expected {:?}", j, z[j], w));
        }
    }
    rec.count("transforms", 3);
    rec.distinct(&format!("fft {} {}", n, x[0]));
    Ok(())
}

/// What the callback saw.
#[derive(Clone)]
struct Seen {
    start: f64,
    center: f64,
    latency: f64,
    delta: f64,
    per: f64,
    rate: f64,
    shape: (usize, usize, usize, usize),
    freq: f32,
    input: Vec<Vec<C32>>,
    dirty: bool,
}

/// Gain of `input` in `output` at bin `k` of window number `w`.
fn gain(seed: u64, mode: usize, w: usize, input: usize, output: usize, k: usize) -> C {
    let mut h = Rng::new(seed ^ (input as u64) << 20 ^ (output as u64) << 30);
    let g = (h.uni(-1.0, 1.0), h.uni(-1.0, 1.0));
    match mode {
        // Copy.
        0 => {
            if input == output {
                (1.0, 0.0)
            } else {
                (0.0, 0.0)
            }
        }
        // Mix.
        1 => (g.0, 0.0),
        // Brickwall.
        2 => {
            if (k as u64 * 7919 + seed) / 64 % 3 == 0 {
                g
            } else {
                (0.0, 0.0)
            }
        }
        // Every bin different.
        3 => {
            let mut h = Rng::new(seed ^ (input as u64) << 20 ^ (output as u64) << 30 ^ (k as u64) << 40);
            (h.uni(-1.0, 1.0), h.uni(-1.0, 1.0))
        }
        // Time varying.
        _ => {
            let mut h = Rng::new(seed ^ (input as u64) << 20 ^ (output as u64) << 30 ^ (w as u64) << 40);
            (h.uni(-1.0, 1.0), h.uni(-1.0, 1.0))
        }
    }
}

fn case_resynth(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let bits = r.usize(2, 11);
    let length = 1usize << bits;
    let io = r.below(6);
    let (ni, no) = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (0, 1)][io];
    let mode = r.below(5);
    let seed = r.u64() >> 4;
    let log: Arc<Mutex<Vec<Seen>>> = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    let plain = r.chance(0.5);
    let callback = move |w: &mut FftWindow| {
        let mut log = l.lock().unwrap();
        let n = log.len();
        let bins = w.bins();
        log.push(Seen {
            start: w.time_at(0),
            center: w.time(),
            latency: w.latency(),
            delta: w.delta_time(),
            per: w.windows_per_second(),
            rate: w.sample_rate(),
            shape: (w.length(), bins, w.inputs(), w.outputs()),
            freq: w.frequency(bins - 1),
            input: (0..w.inputs()).map(|c| (0..bins).map(|k| w.at(c, k)).collect()).collect(),
            dirty: (0..w.outputs()).any(|c| (0..bins).any(|k| w.at_output(c, k) != C32::new(0.0, 0.0))),
        });
        for o in 0..w.outputs() {
            if mode == 0 && plain {
                if o < w.inputs() {
                    w.forward(o, o);
                }
                continue;
            }
            for k in 0..bins {
                let mut s = if w.inputs() == 0 { C32::new(if k == 1 { 1.0 } else { 0.0 }, 0.0) } else { C32::new(0.0, 0.0) };
                for i in 0..w.inputs() {
                    let g = gain(seed, mode, n, i, o, k);
                    s += w.at(i, k) * C32::new(g.0 as f32, g.1 as f32);
                }
                w.set(o, k, s);
            }
        }
    };
    let mut u: Box<dyn AudioUnit> = match io {
        0 => Box::new(resynth::<U1, U1, _>(length, callback)),
        1 => Box::new(resynth::<U1, U2, _>(length, callback)),
        2 => Box::new(resynth::<U2, U1, _>(length, callback)),
        3 => Box::new(resynth::<U2, U2, _>(length, callback)),
        4 => Box::new(resynth::<U3, U2, _>(length, callback)),
        _ => Box::new(resynth::<U0, U1, _>(length, callback)),
    };
    u.set_sample_rate(sr);
    rec.ctx = format!("resynth {} {}->{} mode {} plain {} at {} Hz", length, ni, no, mode, plain, sr);
    let hann: Vec<f64> = (0..length).map(|i| 0.5 - 0.5 * (std::f64::consts::TAU * i as f64 / length as f64).cos()).collect();
    for round in 0..2 {
        log.lock().unwrap().clear();
        let hop = length / 4;
        let n = length * r.usize(1, 5) + r.below(length + 1);
        let n = Ord::max(n, 40);
        let x: Vec<Vec<f32>> = (0..ni).map(|_| audio(r, n)).collect();
        let y = render(u.as_mut(), &x, &partition(r, n));
        let seen = log.lock().unwrap().clone();
        let calls = if n < length { 0 } else { (n - length) / hop + 1 };
        if seen.len() != calls {
            return Err(format!("round {} callback was called {} times in {} samples, expected {}", round, seen.len(), n, calls));
        }
        let mut want = vec![vec![0.0f64; n]; no];
        for (w, s) in seen.iter().enumerate() {
            let start = w * hop;
            let near = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + b.abs());
            if s.shape != (length, length / 2 + 1, ni, no) || s.dirty {
                return Err(format!("round {} window {} shape {:?} cleared {}", round, w, s.shape, !s.dirty));
            }
            if !near(s.start * sr, start as f64) || !near(s.center * sr, start as f64 + length as f64 * 0.5) || !near(s.latency * sr, length as f64) {
                return Err(format!("round {} window {} from sample {} has start {} center {} latency {} seconds", round, w, start, s.start, s.center, s.latency));
            }
            if !near(s.delta * sr, hop as f64) || !near(s.per, sr / hop as f64) || !near(s.rate, sr) || !near(s.freq as f64, sr * 0.5) {
                return Err(format!("round {} window {} delta {} per second {} rate {} top frequency {}", round, w, s.delta, s.per, s.rate, s.freq));
            }
            let mut spec: Vec<Vec<C>> = vec![];
            for i in 0..ni {
                let mut a: Vec<C> = (0..length).map(|j| (x[i][start + j] as f64 * hann[j], 0.0)).collect();
                dft(&mut a, -1.0);
                let tol = 2e-6 * (norm(&a) + 1.0) * (bits as f64).sqrt();
                for k in 0..=length / 2 {
                    let g = s.input[i][k];
                    if (g.re as f64 - a[k].0).abs() > tol || (g.im as f64 - a[k].1).abs() > tol {
                        return Err(format!("round {} window {} from sample {} input {} bin {} is {}, expected {:?}", round, w, start, i, k, g, a[k]));
                    }
                }
                spec.push(a);
            }
            for o in 0..no {
                let mut a = vec![(0.0, 0.0); length];
                for k in 0..=length / 2 {
                    let mut t = if ni == 0 && k == 1 && !(mode == 0 && plain) { (1.0, 0.0) } else { (0.0, 0.0) };
                    for i in 0..ni {
                        let p = mul(spec[i][k], gain(seed, mode, w, i, o, k));
                        t = (t.0 + p.0, t.1 + p.1);
                    }
                    a[k] = t;
                    if k > 0 && k < length / 2 {
                        a[length - k] = (t.0, -t.1);
                    }
                }
                dft(&mut a, 1.0);
                for j in 0..length {
                    if start + length + j < n {
                        want[o][start + length + j] += a[j].0 / length as f64 * hann[j] * 2.0 / 3.0;
                    }
                }
            }
        }
        for o in 0..no {
            let top = want[o].iter().fold(1.0f64, |a, b| a.max(b.abs()));
            for j in 0..n {
                if (y[o][j] as f64 - want[o][j]).abs() > 1e-5 * top {
                    return Err(format!("round {} output {} sample {} is {}, expected {}", round, o, j, y[o][j], want[o][j]));
                }
                // Exact reconstruction one window beyond latency.
                if mode == 0 && o < ni && j >= 2 * length && (y[o][j] - x[o][j - length]).abs() > 2e-5 {
                    return Err(format!("round {} copy {} sample {} is {}, expected {}", round, o, j, y[o][j], x[o][j - length]));
                }
            }
        }
        if ni > 0 && mode != 0 || !plain {
            rec.count("shaped windows", seen.len() as u64);
        }
        rec.count("windows", seen.len() as u64);
        rec.count("samples", n as u64);
        u.reset();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Amplitude of a tone at `f` (cycles per sample) in `x`, with a Blackman-Harris window.
fn amplitude(x: &[f32], f: f64) -> f64 {
    let n = x.len() as f64;
    let (mut re, mut im, mut sum) = (0.0, 0.0, 0.0);
    for (i, v) in x.iter().enumerate() {
        let p = std::f64::consts::TAU * (i as f64 + 0.5) / n;
        let w = 0.35875 - 0.48829 * p.cos() + 0.14128 * (2.0 * p).cos() - 0.01168 * (3.0 * p).cos();
        let t = std::f64::consts::TAU * f * i as f64;
        re += *v as f64 * w * t.cos();
        im += *v as f64 * w * t.sin();
        sum += w;
    }
    2.0 * (re * re + im * im).sqrt() / sum
}

fn tone(n: usize, f: f64, a: f64, p: f64) -> Vec<f32> {
    (0..n).map(|i| (a * (std::f64::consts::TAU * f * i as f64 + p).sin()) as f32).collect()
}

fn case_oversample(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let n = 1500;
    let skip = 120;
    let low = -37.0;
    let db = |a: f64| 20.0 * a.max(1e-9).log10();
    let kind = r.below(5);
    match kind {
        0 => {
            // The enclosed node sees the input at twice the rate without images, and its output comes back.
            let log: Arc<Mutex<Vec<f32>>> = Arc::new(Mutex::new(vec![]));
            let l = log.clone();
            let inner = map(move |i: &Frame<f32, U1>| {
                l.lock().unwrap().push(i[0]);
                i[0]
            });
            let mut u: Box<dyn AudioUnit> = Box::new(oversample(inner));
            u.set_sample_rate(sr);
            for round in 0..2 {
                log.lock().unwrap().clear();
                let (f, a) = (r.uni(0.01, 0.40), r.uni(0.1, 1.0));
                rec.ctx = format!("oversample tone {} amplitude {} at {} Hz", f * sr, a, sr);
                let x = tone(n, f, a, r.uni(0.0, 6.0));
                let y = &render(u.as_mut(), &vec![x], &partition(r, n))[0];
                let z = log.lock().unwrap().clone();
                if z.len() != 2 * n {
                    return Err(format!("round {} the enclosed node ran {} times in {} samples", round, z.len(), n));
                }
                let pass = db(amplitude(&z[2 * skip..], f * 0.5) / a);
                if pass.abs() > 0.6 {
                    return Err(format!("round {} the enclosed node sees the tone at {} dB", round, pass));
                }
                let image = db(amplitude(&z[2 * skip..], 0.5 - f * 0.5) / a);
                if image > low {
                    return Err(format!("round {} the enclosed node sees an image at {} dB", round, image));
                }
                let out = db(amplitude(&y[skip..], f) / a);
                if out.abs() > 1.2 {
                    return Err(format!("round {} the output tone is at {} dB", round, out));
                }
                u.reset();
            }
        }
        1 => {
            // The octave above the tone: aliases if it lands beyond Nyquist.
            let mut u: Box<dyn AudioUnit> = Box::new(oversample(map(|i: &Frame<f32, U1>| i[0] * i[0])));
            u.set_sample_rate(sr);
            let (f, a) = (r.uni(0.26, 0.40), r.uni(0.3, 1.0));
            rec.ctx = format!("oversample squared tone {} amplitude {} at {} Hz", f * sr, a, sr);
            let x = tone(n, f, a, r.uni(0.0, 6.0));
            let y = &render(u.as_mut(), &vec![x], &partition(r, n))[0];
            let alias = db(amplitude(&y[skip..], 1.0 - 2.0 * f) / (a * a * 0.5));
            if alias > low {
                return Err(format!("alias at {} dB", alias));
            }
            let mean: f64 = amplitude(&y[skip..], 0.0) * 0.5;
            if (mean / (a * a * 0.5) - 1.0).abs() > 0.12 {
                return Err(format!("mean {} expected {}", mean, a * a * 0.5));
            }
        }
        2 => {
            // The octave is in the passband.
            let mut u: Box<dyn AudioUnit> = Box::new(oversample(map(|i: &Frame<f32, U1>| i[0] * i[0])));
            u.set_sample_rate(sr);
            let (f, a) = (r.uni(0.02, 0.19), r.uni(0.3, 1.0));
            rec.ctx = format!("oversample squared low tone {} amplitude {} at {} Hz", f * sr, a, sr);
            let x = tone(n, f, a, r.uni(0.0, 6.0));
            let y = &render(u.as_mut(), &vec![x], &partition(r, n))[0];
            let oct = db(amplitude(&y[skip..], 2.0 * f) / (a * a * 0.5));
            if oct.abs() > 1.8 {
                return Err(format!("octave at {} dB", oct));
            }
        }
        3 => {
            // A generator inside keeps its pitch and is band limited.
            let f = if r.chance(0.5) { r.uni(0.02, 0.40) } else { r.uni(0.52, 0.9) };
            rec.ctx = format!("oversample sine_hz({}) at {} Hz", f * sr, sr);
            let mut u: Box<dyn AudioUnit> = Box::new(oversample(sine_hz((f * sr) as f32)));
            u.set_sample_rate(sr);
            let y = &render(u.as_mut(), &vec![], &partition(r, n))[0];
            if f < 0.5 {
                let out = db(amplitude(&y[skip..], f));
                if out.abs() > 0.6 {
                    return Err(format!("tone at {} dB", out));
                }
            } else {
                let out = db(amplitude(&y[skip..], 1.0 - f));
                if out > low {
                    return Err(format!("alias at {} dB", out));
                }
            }
        }
        _ => {
            // Channels are independent, linear and time invariant.
            let m = 400;
            rec.ctx = format!("oversample linear node at {} Hz", sr);
            let mk = || -> Box<dyn AudioUnit> {
                let mut u: Box<dyn AudioUnit> = Box::new(oversample(pass() | fundsp::hacker::mul(0.5)));
                u.set_sample_rate(sr);
                u
            };
            let h = render(mk().as_mut(), &vec![vec![1.0; 1].into_iter().chain(vec![0.0; m - 1]).collect(), vec![0.0; m]], &partition(r, m));
            let x = vec![audio(r, m), audio(r, m)];
            let mut u = mk();
            for round in 0..2 {
                let y = render(u.as_mut(), &x, &partition(r, m));
                for c in 0..2 {
                    for i in 0..m {
                        let w: f64 = (0..=Ord::min(i, 160)).map(|k| h[0][k] as f64 * x[c][i - k] as f64).sum::<f64>() * if c == 0 { 1.0 } else { 0.5 };
                        if (y[c][i] as f64 - w).abs() > 2e-5 {
                            return Err(format!("round {} channel {} sample {} is {}, expected {}", round, c, i, y[c][i], w));
                        }
                    }
                }
                u.reset();
            }
            if h[1].iter().any(|v| *v != 0.0) || h[0][160..].iter().any(|v| *v != 0.0) {
                return Err("channels leak or the response is too long".to_string());
            }
        }
    }
    rec.count("runs", 1);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn catmull(y: &dyn Fn(usize) -> f64, p: f64) -> f64 {
    let i = p.floor() as usize;
    let d = p - p.floor();
    let (a, b, c, e) = (y(i - 1), y(i), y(i + 1), y(i + 2));
    b + 0.5 * d * (c - a + d * (2.0 * a - 5.0 * b + 4.0 * c - e + d * (3.0 * (b - c) + e - a)))
}

fn case_resample(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let n = r.usize(20, 1200);
    let mode = r.below(7);
    let base = match r.below(4) {
        0 => 1.0,
        1 => *r.pick(&[0.5, 0.25, 2.0, 3.0, 4.0]),
        2 => r.lf(0.01, 1.0),
        _ => r.lf(1.0, 20.0),
    };
    let speed: Vec<f32> = (0..n)
        .map(|i| match mode {
            0..=2 => base,
            3 => r.lf(0.1, 4.0),
            4 => base * (1.0 + 0.5 * (i as f32 * 0.01).sin()),
            5 => {
                if r.chance(0.03) {
                    r.f(50.0, 400.0)
                } else {
                    base
                }
            }
            _ => {
                if (i / 37) % 2 == 0 {
                    if r.chance(0.5) {
                        0.0
                    } else {
                        -r.f(0.0, 2.0)
                    }
                } else {
                    base
                }
            }
        })
        .collect();
    rec.ctx = format!("resample mode {} speed {} at {} Hz, {} samples", mode, base, sr, n);
    // The source is a function of the sample index on two channels.
    let seed = r.u64();
    let wave = |seed: u64, c: usize, i: usize| -> f32 {
        let t = i as f64;
        let mut h = Rng::new(seed ^ (c as u64) << 50 ^ i as u64);
        ((t * 0.03).sin() * 0.4 + h.uni(-0.3, 0.3)) as f32
    };
    let count = Arc::new(Mutex::new(0usize));
    let mut u: Box<dyn AudioUnit> = Box::new(resample(An(Source { seed, i: 0, sr: 0.0, count: count.clone() })));
    u.set_sample_rate(sr);
    let mut offset: Option<usize> = None;
    for round in 0..2 {
        *count.lock().unwrap() = 0;
        let y = render(u.as_mut(), &vec![speed.clone()], &partition(r, n));
        let used = *count.lock().unwrap();
        let mut p = 0.0f64;
        let pos: Vec<f64> = speed
            .iter()
            .map(|s| {
                p += (*s as f64).max(0.0);
                p
            })
            .collect();
        let error = |off: usize| -> (f64, usize) {
            let mut worst = (0.0, 0);
            for c in 0..2 {
                for i in 0..n {
                    let w = catmull(&|k| wave(seed, c, k) as f64, pos[i] + off as f64);
                    let e = (w - y[c][i] as f64).abs();
                    if e > worst.0 {
                        worst = (e, i);
                    }
                }
            }
            worst
        };
        // The starting point is not specified, but it is the same every time.
        let (off, e) = (1..=3).map(|o| (o, error(o))).min_by(|a, b| a.1 .0.total_cmp(&b.1 .0)).unwrap();
        if e.0 > 2e-4 {
            return Err(format!("round {} sample {} is off by {} from the source at position {}", round, e.1, e.0, pos[e.1] + off as f64));
        }
        if offset.map_or(false, |o| o != off) && pos[n - 1] > 4.0 {
            return Err(format!("round {} starts at {} instead of {:?}", round, off, offset));
        }
        offset = Some(off);
        let need = pos[n - 1] + off as f64;
        if (used as f64) < need + 2.0 || used as f64 > need + 6.0 {
            return Err(format!("round {} took {} source samples for {}", round, used, need));
        }
        rec.count("samples", n as u64);
        u.reset();
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

#[derive(Clone)]
struct Source {
    seed: u64,
    i: usize,
    sr: f64,
    count: Arc<Mutex<usize>>,
}

impl AudioNode for Source {
    const ID: u64 = 9001;
    type Inputs = U0;
    type Outputs = U2;
    fn reset(&mut self) {
        self.i = 0;
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.sr = sample_rate;
    }
    fn tick(&mut self, _: &Frame<f32, U0>) -> Frame<f32, U2> {
        let i = self.i;
        self.i += 1;
        *self.count.lock().unwrap() += 1;
        let t = i as f64;
        Frame::generate(|c| {
            let mut h = Rng::new(self.seed ^ (c as u64) << 50 ^ i as u64);
            ((t * 0.03).sin() * 0.4 + h.uni(-0.3, 0.3)) as f32
        })
    }
}

fn main() {
    let mut c = Ctx::new("P22", "distinct transforms, resyntheses, oversampled nodes and resampled sources");
    let n = c.scale(8, 100);
    c.par("fft", 200 * n, |i, rec| case_fft(i, rec));
    c.par("resynth", 600 * n, |_, rec| case_resynth(rec));
    c.par("oversample", 400 * n, |_, rec| case_oversample(rec));
    c.par("resample", 400 * n, |_, rec| case_resample(rec));
    c.finish();
}
