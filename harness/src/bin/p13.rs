//! P13: response() equals the gain and phase measured from rendered impulse responses.
use fundsp::hacker::{Complex64, Setting};
use fundsp::prelude::*;
use vh::dunit::Typed;
use vh::{blocks, partition, rate, render, Chans, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;

fn z(sr: f64, f: f64) -> Complex64 {
    Complex64::from_polar(1.0, -std::f64::consts::TAU * f / sr)
}

/// Impulse response (difference of the impulse run and the silent run) of all outputs.
/// `params` are values of the inputs after the audio inputs.
fn impulse_response(u: &U, audio: usize, params: &[f32], max: usize, r: &mut Rng) -> Option<Chans> {
    let n = u.inputs();
    let mut a = u.clone();
    let mut b = u.clone();
    let mut h: Chans = vec![vec![]; u.outputs()];
    let amp = 1.0f32;
    let mut peak = 0.0f64;
    let mut first = true;
    let mut pos = 0;
    // Followers start from their first input, so silence comes first.
    let lead = r.usize(1, 70);
    let mut x: Chans = vec![vec![0.0; lead]; n];
    for c in audio..n {
        x[c] = vec![params[c - audio]; lead];
    }
    render(a.as_mut(), &x, &blocks(lead));
    render(b.as_mut(), &x, &blocks(lead));
    while pos < max {
        let len = 512;
        let mut x: Chans = vec![vec![0.0; len]; n];
        for c in audio..n {
            x[c] = vec![params[c - audio]; len];
        }
        let steps = if r.chance(0.3) { partition(r, len) } else { blocks(len) };
        let y0 = render(b.as_mut(), &x, &steps);
        if first {
            for c in 0..audio {
                x[c][0] = amp;
            }
        }
        first = false;
        let y1 = render(a.as_mut(), &x, &steps);
        let mut m = 0.0f64;
        for c in 0..h.len() {
            for i in 0..len {
                let d = y1[c][i] - y0[c][i];
                m = m.max(d.abs() as f64);
                h[c].push(d);
            }
        }
        peak = peak.max(m);
        pos += len;
        if m <= 2e-8 * peak && pos >= 2048 {
            return Some(h);
        }
    }
    None
}

fn dft(h: &[f32], sr: f64, f: f64) -> Complex64 {
    let mut s = Complex64::new(0.0, 0.0);
    let w = -std::f64::consts::TAU * f / sr;
    for (i, x) in h.iter().enumerate() {
        if *x != 0.0 {
            let (si, co) = (w * i as f64).sin_cos();
            s += Complex64::new(co * *x as f64, si * *x as f64);
        }
    }
    s
}

type Design = Box<dyn Fn(f64) -> Complex64>;

struct L {
    name: String,
    unit: U,
    audio: usize,
    params: Vec<f32>,
    /// Design of output 0.
    design: Option<Design>,
    /// Frequencies of interest.
    fc: f64,
    q: f64,
    tol: f64,
}

fn bl(sr: f64, fc: f64, f: f64) -> Complex64 {
    let g = (std::f64::consts::PI * fc / sr).tan();
    Complex64::new(0.0, (std::f64::consts::PI * f / sr).tan() / g)
}

/// Random fixed or modulatable linear component.
fn single(r: &mut Rng, sr: f64, k: usize, f64s: bool) -> L {
    let fc = (sr * r.log(0.004, 0.44)) as f32;
    let q = r.lf(0.3, 8.0);
    let gain = r.lf(0.15, 6.0);
    let var = r.chance(0.4);
    let (fd, qd, gd) = (fc as f64, q as f64, gain as f64);
    let a = gd.sqrt();
    macro_rules! real {
        ($e64:expr, $e32:expr) => {
            if f64s { Box::new($e64) as U } else { Box::new($e32) as U }
        };
    }
    macro_rules! svf {
        ($name:ident, $hz:ident, $qn:ident, $d:expr) => {{
            let d = $d;
            let design: Design = Box::new(move |f| {
                let s = bl(sr, fd, f);
                d(s)
            });
            match r.below(3) {
                0 => (stringify!($hz), real!($hz::<f64>(fd, qd), $hz::<f32>(fc, q)), vec![], Some(design)),
                1 => (stringify!($name), real!($name::<f64>(), $name::<f32>()), vec![fc, q], Some(design)),
                _ => (stringify!($qn), real!($qn::<f64>(qd), $qn::<f32>(q)), vec![fc], Some(design)),
            }
        }};
    }
    macro_rules! svfg {
        ($name:ident, $hz:ident, $qn:ident, $d:expr) => {{
            let d = $d;
            let design: Design = Box::new(move |f| {
                let s = bl(sr, fd, f);
                d(s)
            });
            match r.below(3) {
                0 => (stringify!($hz), real!($hz::<f64>(fd, qd, gd), $hz::<f32>(fc, q, gain)), vec![], Some(design)),
                1 => (stringify!($name), real!($name::<f64>(), $name::<f32>()), vec![fc, q, gain], Some(design)),
                _ => (stringify!($qn), real!($qn::<f64>(qd, gd), $qn::<f32>(q, gain)), vec![fc], Some(design)),
            }
        }};
    }
    let one = Complex64::new(1.0, 0.0);
    let mut audio = 1;
    let mut tol = if f64s { 1e-4 } else { 2e-3 };
    let (name, unit, params, design): (&str, U, Vec<f32>, Option<Design>) = match k {
        0 => svf!(lowpass, lowpass_hz, lowpass_q, move |s: Complex64| one / (s * s + s / qd + 1.0)),
        1 => svf!(highpass, highpass_hz, highpass_q, move |s: Complex64| s * s / (s * s + s / qd + 1.0)),
        2 => svf!(bandpass, bandpass_hz, bandpass_q, move |s: Complex64| s / (s * s + s / qd + 1.0)),
        3 => svf!(notch, notch_hz, notch_q, move |s: Complex64| (s * s + 1.0) / (s * s + s / qd + 1.0)),
        4 => svf!(peak, peak_hz, peak_q, move |s: Complex64| (s * s - 1.0) / (s * s + s / qd + 1.0)),
        5 => svf!(allpass, allpass_hz, allpass_q, move |s: Complex64| (s * s - s / qd + 1.0) / (s * s + s / qd + 1.0)),
        6 => svfg!(bell, bell_hz, bell_q, move |s: Complex64| (s * s + s * (a / qd) + 1.0) / (s * s + s / (a * qd) + 1.0)),
        7 => svfg!(lowshelf, lowshelf_hz, lowshelf_q, move |s: Complex64| (s * s + s * (a.sqrt() / qd) + a) * a
            / (s * s * a + s * (a.sqrt() / qd) + 1.0)),
        8 => svfg!(highshelf, highshelf_hz, highshelf_q, move |s: Complex64| (s * s * a + s * (a.sqrt() / qd) + 1.0) * a
            / (s * s + s * (a.sqrt() / qd) + a)),
        9 => {
            let m = r.f(-1.0, 1.0);
            let md = m as f64;
            let d: Design = Box::new(move |f| {
                let s = bl(sr, fd, f);
                ((s * s - 1.0) / (s * s + s / qd + 1.0) + md) * 0.5
            });
            if var {
                ("morph", real!(morph::<f64>(), morph::<f32>()), vec![fc, q, m], Some(d))
            } else {
                ("morph_hz", real!(morph_hz::<f64>(fd, qd, md), morph_hz::<f32>(fc, q, m)), vec![], Some(d))
            }
        }
        10 => {
            let d: Design = Box::new(move |f| {
                let s = bl(sr, fd, f);
                one / (s * s + s * std::f64::consts::SQRT_2 + 1.0)
            });
            if var {
                ("butterpass", real!(butterpass::<f64>(), butterpass::<f32>()), vec![fc], Some(d))
            } else {
                ("butterpass_hz", real!(butterpass_hz::<f64>(fd), butterpass_hz::<f32>(fc)), vec![], Some(d))
            }
        }
        11 => {
            if var {
                ("resonator", real!(resonator::<f64>(), resonator::<f32>()), vec![fc, q], None)
            } else {
                ("resonator_hz", real!(resonator_hz::<f64>(fd, qd), resonator_hz::<f32>(fc, q)), vec![], None)
            }
        }
        12 => {
            let d: Design = Box::new(move |f| {
                let c = (-std::f64::consts::TAU * fd / sr).exp();
                (one - c) / (one - z(sr, f) * c)
            });
            if var {
                ("lowpole", real!(lowpole::<f64>(), lowpole::<f32>()), vec![fc], Some(d))
            } else {
                ("lowpole_hz", real!(lowpole_hz::<f64>(fd), lowpole_hz::<f32>(fc)), vec![], Some(d))
            }
        }
        13 => {
            if var {
                ("highpole", real!(highpole::<f64>(), highpole::<f32>()), vec![fc], None)
            } else {
                ("highpole_hz", real!(highpole_hz::<f64>(fd), highpole_hz::<f32>(fc)), vec![], None)
            }
        }
        14 => {
            let delay = r.f(0.1, 3.0);
            let e = (1.0 - delay as f64) / (1.0 + delay as f64);
            let d: Design = Box::new(move |f| (one * e + z(sr, f)) / (one + z(sr, f) * e));
            if var {
                ("allpole", real!(allpole::<f64>(), allpole::<f32>()), vec![delay], Some(d))
            } else {
                ("allpole_delay", real!(allpole_delay::<f64>(delay as f64), allpole_delay::<f32>(delay)), vec![], Some(d))
            }
        }
        15 => ("dcblock_hz", real!(dcblock_hz::<f64>(fd * 0.3), dcblock_hz::<f32>(fc * 0.3)), vec![], None),
        16 => {
            tol = 2e-3;
            ("pinkpass", real!(pinkpass::<f64>(), pinkpass::<f32>()), vec![], None)
        }
        17 => {
            let len = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32]);
            let w: Vec<f32> = (0..len).map(|_| r.f(-1.0, 1.0)).collect();
            let v = w.clone();
            let d: Design = Box::new(move |f| {
                let mut s = Complex64::new(0.0, 0.0);
                for (i, x) in v.iter().enumerate() {
                    s += z(sr, f).powu((v.len() - 1 - i) as u32) * *x as f64;
                }
                s
            });
            ("fir", firs(&w), vec![], Some(d))
        }
        18 => {
            let g = r.f(0.0, 2.0);
            ("fir3", Box::new(fir3(g)), vec![], None)
        }
        19 => {
            let n = r.below(300);
            let t = (n as f64 + r.uni(-0.4, 0.4)).max(0.0) / sr;
            let d: Design = Box::new(move |f| z(sr, f).powu(n as u32));
            ("delay", Box::new(delay(t)), vec![], Some(d))
        }
        20 => {
            let d: Design = Box::new(move |f| z(sr, f));
            ("tick", Box::new(tick()), vec![], Some(d))
        }
        21 => {
            let t = r.log(2.0, 500.0) / sr;
            ("follow", real!(follow::<f64>(t), follow::<f32>(t as f32)), vec![], None)
        }
        22 => {
            let t = r.log(2.0, 500.0) / sr;
            ("afollow", real!(afollow::<f64>(t, t), afollow::<f32>(t as f32, t as f32)), vec![], None)
        }
        23 => {
            let rad = r.uni(0.1, 0.98);
            let th = r.uni(0.05, 3.0);
            let (a1, a2) = (-2.0 * rad * th.cos(), rad * rad);
            let b: Vec<f64> = (0..3).map(|_| r.uni(-1.0, 1.0)).collect();
            let c = b.clone();
            let d: Design = Box::new(move |f| {
                let z1 = z(sr, f);
                (one * c[0] + z1 * c[1] + z1 * z1 * c[2]) / (one + z1 * a1 + z1 * z1 * a2)
            });
            ("biquad", real!(biquad::<f64>(a1, a2, b[0], b[1], b[2]), biquad::<f32>(a1 as f32, a2 as f32, b[0] as f32, b[1] as f32, b[2] as f32)), vec![], Some(d))
        }
        24 => {
            // Every channel of a bank has its own coefficients.
            let mut bank = fundsp::hacker32::biquad_bank();
            let ch = 0;
            let mut d0: Option<Design> = None;
            for i in 0..8 {
                let rad = r.uni(0.1, 0.97);
                let th = r.uni(0.05, 3.0);
                let (a1, a2) = ((-2.0 * rad * th.cos()) as f32, (rad * rad) as f32);
                let b: Vec<f32> = (0..3).map(|_| r.f(-1.0, 1.0)).collect();
                bank.set(Setting::biquad(a1, a2, b[0], b[1], b[2]).index(i));
                if i == ch {
                    let c = b.clone();
                    d0 = Some(Box::new(move |f| {
                        let z1 = z(sr, f);
                        (one * c[0] as f64 + z1 * c[1] as f64 + z1 * z1 * c[2] as f64) / (one + z1 * a1 as f64 + z1 * z1 * a2 as f64)
                    }));
                }
            }
            audio = 8;
            tol = 2e-3;
            ("biquad_bank", Box::new(bank), vec![], d0)
        }
        25 => {
            let p = r.f(-1.0, 1.0);
            if var {
                ("panner", Box::new(panner()), vec![p], None)
            } else {
                ("pan", Box::new(pan(p)), vec![], None)
            }
        }
        26 => {
            audio = 2;
            ("rotate", Box::new(rotate(r.f(-3.0, 3.0), r.f(0.1, 2.0))), vec![], None)
        }
        _ => {
            let g = r.f(-2.0, 2.0);
            let d: Design = Box::new(move |_| one * g as f64);
            ("mul", Box::new(mul(g)), vec![], Some(d))
        }
    };
    L { name: name.to_string(), unit, audio, params, design, fc: fd, q: qd, tol }
}
const SINGLES: usize = 28;

fn freqs(r: &mut Rng, sr: f64, fc: f64) -> Vec<f64> {
    vec![fc, sr * r.log(0.002, 0.49), sr * r.uni(0.01, 0.49), sr * 0.499, (fc * r.uni(0.6, 1.6)).min(sr * 0.49)]
}

fn check(u: &mut U, h: &Chans, sr: f64, fs: &[f64], tol: f64, rec: &mut Rec, must: bool) -> Result<Vec<Vec<Complex64>>, String> {
    let mut all = vec![];
    for c in 0..h.len() {
        let mut row = vec![];
        let sum: f64 = h[c].iter().map(|x| x.abs() as f64).sum();
        for &f in fs {
            let m = dft(&h[c], sr, f);
            row.push(m);
            rec.count("frequencies", 1);
            match u.response(c, f) {
                Some(a) => {
                    let t = tol * (1.0 + sum.min(10.0 + m.norm()));
                    if !((a - m).norm() <= t) {
                        return Err(format!("output {} at {} Hz: response() {}, measured {} (tol {})", c, f, a, m, t));
                    }
                    let db = u.response_db(c, f).ok_or("response_db is None where response is not")?;
                    if a.norm() > 1e-6 && (db - 20.0 * a.norm().log10()).abs() > 1e-3 {
                        return Err(format!("response_db {} of gain {}", db, a.norm()));
                    }
                }
                None => {
                    if must {
                        return Err(format!("no response for linear output {}", c));
                    }
                }
            }
        }
        all.push(row);
    }
    Ok(all)
}

fn case_single(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let double = r.chance(0.5);
    let mut l = single(r, sr, i % SINGLES, double);
    rec.ctx = format!("{} {:?} fc {} sr {}", l.name, l.params, l.fc, sr);
    if r.chance(0.3) {
        // An earlier rate must not matter.
        l.unit.set_sample_rate(rate(r));
    }
    l.unit.set_sample_rate(sr);
    let audio = l.audio;
    if !l.params.is_empty() && r.chance(0.6) {
        // Earlier values of the parameter inputs must not matter, whichever of them were different.
        for _ in 0..r.usize(1, 2) {
            let mut p = l.params.clone();
            for (c, x) in p.iter_mut().enumerate() {
                if r.chance(0.4) || (c == 0 && l.params.len() == 1) {
                    *x *= r.f(0.6, 1.1);
                }
            }
            let len = r.usize(1, 80);
            let mut x: Chans = (0..audio).map(|_| vec![0.0; len]).collect();
            x.extend(p.iter().map(|p| vec![*p; len]));
            let steps = partition(r, len);
            render(l.unit.as_mut(), &x, &steps);
        }
        rec.count("earlier_parameter_values", 1);
    }
    let h = match impulse_response(&l.unit, audio, &l.params, 60000, r) {
        Some(h) => h,
        None => {
            rec.count("skipped_long", 1);
            return Ok(());
        }
    };
    // Latch parameter inputs, some time after start.
    let mut u = l.unit.clone();
    let n = u.inputs();
    let len = r.usize(1, 200);
    let mut x: Chans = vec![vec![0.1; len]; n];
    for c in audio..n {
        x[c] = vec![l.params[c - audio]; len];
    }
    let steps = if r.chance(0.3) { vec![vh::TICK; len] } else { partition(r, len) };
    render(u.as_mut(), &x, &steps);
    let fs = freqs(r, sr, l.fc);
    let m = check(&mut u, &h, sr, &fs, l.tol, rec, true)?;
    if let Some(d) = &l.design {
        for (k, &f) in fs.iter().enumerate() {
            let e = d(f);
            if !((m[0][k] - e).norm() <= 3.0 * l.tol * (1.0 + e.norm().max(1.0) * 2.0)) {
                return Err(format!("at {} Hz measured {} but the design is {}", f, m[0][k], e));
            }
        }
        rec.count("design_checks", fs.len() as u64);
    }
    let g = |f: f64| dft(&h[0], sr, f).norm();
    match l.name.as_str() {
        "lowpole" | "lowpole_hz" | "follow" | "afollow" | "fir3" => {
            if (g(0.0) - 1.0).abs() > 5e-3 {
                return Err(format!("gain at DC is {}", g(0.0)));
            }
        }
        "highpole" | "highpole_hz" => {
            let fc = l.fc;
            if g(0.0) > 5e-3 {
                return Err(format!("gain at DC is {}", g(0.0)));
            }
            if fc < sr / 60.0 && (g(fc) - 0.7071).abs() > 0.08 {
                return Err(format!("gain at cutoff is {}", g(fc)));
            }
        }
        "dcblock_hz" => {
            if g(0.0) > 5e-3 || (l.fc < sr * 0.01 && (g(sr * 0.4) - 1.0).abs() > 0.1) {
                return Err(format!("gain at DC {}, high {}", g(0.0), g(sr * 0.4)));
            }
        }
        "resonator" | "resonator_hz" => {
            if l.q > 3.0 && l.fc > 0.02 * sr && l.fc < 0.3 * sr {
                let p = g(l.fc);
                if p < g(l.fc * 1.35) || p < g(l.fc / 1.35) {
                    return Err(format!("no resonance at the center: {} vs {} and {}", p, g(l.fc * 1.35), g(l.fc / 1.35)));
                }
            }
        }
        "pan" | "panner" => {
            let p = dft(&h[0], sr, 0.0).norm_sqr() + dft(&h[1], sr, 0.0).norm_sqr();
            if (p - 1.0).abs() > 1e-3 {
                return Err(format!("panning power {}", p));
            }
        }
        "pinkpass" => {
            // 3 dB per octave: 1 kHz against 4 kHz at 44.1 kHz.
            let ratio = g(sr * 1000.0 / 44100.0) / g(sr * 4000.0 / 44100.0);
            if (ratio - 2.0).abs() > 0.15 {
                return Err(format!("pinking slope over two octaves is {}", ratio));
            }
        }
        _ => (),
    }
    rec.count(&format!("unit:{}", l.name), 1);
    rec.distinct(&format!("{} {:?} {}", rec.ctx, fs, len));
    Ok(())
}

fn leaf(r: &mut Rng, sr: f64) -> Net {
    loop {
        let k = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 23, 27]);
        let l = single(r, sr, k, true);
        if l.unit.inputs() == 1 {
            return Net::wrap(l.unit);
        }
        if r.chance(0.5) {
            // Fix parameter inputs with constants.
            let mut net = Net::new(1, 1);
            let id = net.push(l.unit);
            net.connect_input(0, id, 0);
            for (k, p) in l.params.iter().enumerate() {
                let c = net.push(Box::new(dc(*p)));
                net.connect(c, 0, id, k + 1);
            }
            net.connect_output(id, 0, 0);
            return net;
        }
    }
}

/// Random linear graph.
fn lin(r: &mut Rng, depth: usize, i: usize, o: usize, sr: f64) -> Net {
    if depth == 0 {
        if i == 1 && o == 1 {
            return leaf(r, sr);
        }
        if i == o {
            if i == 2 && r.chance(0.3) {
                return Net::wrap(Box::new(rotate(r.f(-3.0, 3.0), r.f(0.1, 1.5))));
            }
            if i == 2 && r.chance(0.2) {
                return Net::wrap(Box::new(reverse::<U2>()));
            }
            let mut n = leaf(r, sr);
            for _ in 1..i {
                n = n | leaf(r, sr);
            }
            return n;
        }
        if i == 1 && o == 2 && r.chance(0.4) {
            return Net::wrap(Box::new(pan(r.f(-1.0, 1.0))));
        }
        if i == 1 && o == 2 && r.chance(0.4) {
            return Net::wrap(Box::new(split::<U2>()));
        }
        if i == 2 && o == 1 && r.chance(0.5) {
            return Net::wrap(Box::new(join::<U2>()));
        }
        if i == 3 && o == 1 && r.chance(0.5) {
            return Net::wrap(Box::new(join::<U3>()));
        }
        let mut net = Net::new(i, o);
        for c in 0..o {
            if r.chance(0.3) {
                net.pass_through(r.below(i), c);
            } else {
                let id = net.push(leaf_unit(r, sr));
                net.connect_input(r.below(i), id, 0);
                net.connect_output(id, 0, c);
            }
        }
        return net;
    }
    let d = depth - 1;
    loop {
        match r.below(11) {
            0 | 1 => {
                let m = r.usize(1, 3);
                return lin(r, d, i, m, sr) >> lin(r, d, m, o, sr);
            }
            2 if i > 1 && o > 1 => {
                let (i1, o1) = (r.usize(1, i - 1), r.usize(1, o - 1));
                return lin(r, d, i1, o1, sr) | lin(r, d, i - i1, o - o1, sr);
            }
            3 if o > 1 => {
                let o1 = r.usize(1, o - 1);
                return lin(r, d, i, o1, sr) ^ lin(r, d, i, o - o1, sr);
            }
            4 => return lin(r, d, i, o, sr) & lin(r, d, i, o, sr),
            5 if i > 1 => {
                let i1 = r.usize(1, i - 1);
                return lin(r, d, i1, o, sr) + lin(r, d, i - i1, o, sr);
            }
            6 if i > 1 => {
                let i1 = r.usize(1, i - 1);
                return lin(r, d, i1, o, sr) - lin(r, d, i - i1, o, sr);
            }
            7 => return lin(r, d, i, o, sr) * r.f(-1.5, 1.5),
            8 => return -lin(r, d, i, o, sr),
            9 => return if r.chance(0.5) { lin(r, d, i, o, sr) + r.f(-1.0, 1.0) } else { r.f(-1.0, 1.0) - lin(r, d, i, o, sr) },
            10 if i == o && o > 1 => {
                let o1 = r.usize(1, o - 1);
                return !lin(r, d, i, o1, sr);
            }
            _ => (),
        }
    }
}

fn leaf_unit(r: &mut Rng, sr: f64) -> U {
    Box::new(leaf(r, sr))
}

fn case_graph(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (i, o) = (r.usize(1, 3), r.usize(1, 3));
    let depth = r.usize(1, 4);
    let net = lin(r, depth, i, o, sr);
    let mut u: U = Box::new(net);
    rec.ctx = format!("linear graph {}x{} depth {} sr {}", i, o, depth, sr);
    u.set_sample_rate(sr);
    let h = match impulse_response(&u, i, &[], 40000, r) {
        Some(h) => h,
        None => {
            rec.count("skipped_long", 1);
            return Ok(());
        }
    };
    let n = r.usize(1, 100);
    let x: Chans = vec![vec![0.05; n]; i];
    render(u.as_mut(), &x, &blocks(n));
    let f = sr * r.log(0.003, 0.49);
    let fs = freqs(r, sr, f);
    check(&mut u, &h, sr, &fs, 1e-2, rec, true)?;
    rec.distinct(&format!("{} {:?}", rec.ctx, h.iter().map(|c| c[0]).collect::<Vec<_>>()));
    Ok(())
}

fn fr(r: &mut Rng) -> An<Fir<U3>> {
    fir((r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)))
}
fn d2(r: &mut Rng) -> An<Fir<U2>> {
    fir((r.f(-1.0, 1.0), r.f(-1.0, 1.0)))
}

/// FIR filters of any length.
fn firs(w: &[f32]) -> U {
    macro_rules! len {
        ($($n:literal $t:ty),*) => { match w.len() { $( $n => Box::new(fir(Frame::<f32, $t>::generate(|i| w[i]))), )* _ => unreachable!() } };
    }
    if w.len() == 10 && w[0] > 0.0 {
        return Box::new(fir((w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9])));
    }
    if w.len() == 7 && w[0] > 0.0 {
        return Box::new(fir((w[0], w[1], w[2], w[3], w[4], w[5], w[6])));
    }
    if w.len() == 5 && w[0] > 0.0 {
        return Box::new(fir((w[0], w[1], w[2], w[3], w[4])));
    }
    len!(1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 10 U10, 12 U12, 16 U16, 20 U20, 32 U32)
}

/// Static combinators with linear operands.
fn statics(r: &mut Rng, k: usize) -> (String, U) {
    let typed = r.chance(0.5);
    let fs: Vec<An<Fir<U3>>> = (0..8).map(|_| fr(r)).collect();
    let gs: Vec<An<Fir<U2>>> = (0..8).map(|_| d2(r)).collect();
    let ws: Vec<f32> = (0..8).map(|_| r.f(-1.0, 1.0)).collect();
    let f = |i: u64| fs[i as usize].clone();
    let g = |i: u64| gs[i as usize].clone();
    let w = |i: u64| ws[i as usize];
    macro_rules! list {
        ($($e:expr),* $(,)?) => {{
            let mut n = 0;
            $( if n == k {
                return if typed { (format!("AudioNode {}", stringify!($e)), Box::new(Typed($e))) } else { (stringify!($e).to_string(), Box::new($e)) };
            } n += 1; )*
            let _ = n;
            unreachable!()
        }};
    }
    list!(
        f(0) >> g(0),
        f(0) | g(0),
        f(0) ^ g(0),
        f(0) & g(0),
        f(0) + g(0),
        f(0) - g(0),
        f(0) * w(0),
        w(0) * f(0),
        f(0) + w(0),
        w(0) - f(0),
        f(0) - w(0),
        -f(0),
        f(0) * dc(w(0)),
        dc(w(0)) * f(0),
        f(0) + dc(w(0)),
        dc(w(0)) - f(0),
        !(f(0) >> g(0)),
        !((f(0) | g(0)) >> join::<U2>()),
        busi::<U4, _, _>(f),
        stacki::<U4, _, _>(f),
        branchi::<U4, _, _>(f),
        sumi::<U4, _, _>(f),
        pipei::<U4, _, _>(f),
        stacki::<U3, _, _>(|i| f(i) ^ g(i)),
        stacki::<U3, _, _>(|i| f(i) | g(i)),
        stacki::<U3, _, _>(|i| f(i) + g(i)),
        stacki::<U2, _, _>(|i| (f(i) | g(i)) >> reverse::<U2>()),
        stacki::<U2, _, _>(|i| split::<U3>() >> (f(i) | g(i) | pass())),
        stacki::<U2, _, _>(|i| (f(i) | g(i)) >> join::<U2>()),
        stacki::<U3, _, _>(|_| split::<U2>()),
        stacki::<U3, _, _>(|_| reverse::<U2>()),
        stacki::<U3, _, _>(|_| join::<U2>()) >> (f(0) | g(0) | g(1)),
        stacki::<U2, _, _>(|_| multijoin::<U2, U2>()) >> (f(0) | g(0) | g(1) | f(1)),
        sumi::<U3, _, _>(|i| f(i) | g(i)),
        sumi::<U2, _, _>(|i| (f(i) | g(i)) >> join::<U2>()),
        sumi::<U2, _, _>(|i| split::<U2>() >> (f(i) | g(i))),
        sumi::<U3, _, _>(|_| reverse::<U2>()) >> (f(0) | g(0)),
        sumi::<U2, _, _>(|_| join::<U3>()) >> g(0),
        busi::<U3, _, _>(|i| f(i) | g(i)),
        busi::<U3, _, _>(|i| f(i) ^ g(i)),
        branchi::<U3, _, _>(|i| f(i) | g(i)),
        pipei::<U3, _, _>(|i| f(i) | g(i)),
        split::<U4>() >> stacki::<U4, _, _>(f) >> join::<U4>(),
        multisplit::<U2, U3>() >> stacki::<U6, _, _>(f) >> multijoin::<U2, U3>(),
        (f(0) | f(1)) >> multisplit::<U2, U2>() >> (g(0) | g(1) | g(2) | g(3)) >> multijoin::<U2, U2>(),
        (f(0) | g(0) | f(1)) >> reverse::<U3>(),
        (f(0) | g(0)) >> multitick::<U2>(),
        (f(0) | g(0) | f(1)) >> (multipass::<U2>() | g(1)),
        f(0) ^ pass() ^ g(0),
        (f(0) ^ g(0)) >> rotate(w(0), 0.7),
        f(0) >> pan(w(0)),
        (f(0) >> pan(w(0))) >> (g(0) | g(1)),
        (f(0) & tick() & g(0)) >> f(1),
        (pass() & f(0) * w(0)) >> g(0),
        (f(0) | sink()),
        f(0) | dc(w(0)),
        (f(0) | dc(w(0))) >> (g(0) + pass()),
        mul((w(0), w(1))) >> (f(0) | g(0)),
        add((w(0), w(1))) >> (f(0) | g(0)),
        sub((w(0), w(1))) >> (g(0) | g(0)),
        (f(0) | g(0)) >> add((w(0), w(1))),
        unit::<U1, U2>(Box::new(f(0) ^ g(0))) >> (g(1) | f(1)),
        unit::<U2, U2>(Box::new(Net::wrap(Box::new(f(0) | g(0))))) >> (g(1) | f(1)),
        f(0) >> monitor(&shared(0.0), Meter::Sample) >> g(0),
        (f(0) >> morph_hz::<f64>(3000.0, 1.0, w(0) as f64)) & g(0),
        (f(0) >> lowpass_hz::<f64>(3000.0, 1.0)) - g(0),
        (f(0) >> bell_hz::<f64>(2000.0, 2.0, 3.0)) ^ (g(0) >> highpole_hz::<f64>(500.0)),
        stackf::<U3, _, _, _>(|x: f32| f((x * 2.0) as u64)),
        branchf::<U3, _, _, _>(|x: f32| g((x * 2.0) as u64)),
        busf::<U3, _, _, _>(|x: f32| g((x * 2.0) as u64)),
        sumf::<U3, _, _, _>(|x: f32| g((x * 2.0) as u64)),
        pipef::<U3, _, _, _>(|x: f32| g((x * 2.0) as u64)),
        bus(f(0), f(1)) >> thru(g(0)),
        stack(f(0), g(1)) >> sum(f(1), g(0)),
        branch(f(0), g(1)) >> pipe(stack(pass(), g(0)), join::<U2>()),
        (f(0) | g(0)) >> An(Mixer::<U2, U2>::new([Frame::from([w(0), w(1)]), Frame::from([w(2), w(3)])].into())),
        (f(0) | g(0) | f(1)) >> An(Mixer::<U3, U1>::new([Frame::from([w(0), w(1), w(2)])].into())) >> g(1),
        (f(0) | g(0) | f(1) | pass() | g(1)) >> An(Mixer::<U5, U2>::new([Frame::from([w(0), w(1), w(2), w(3), w(4)]), Frame::from([w(5), w(6), w(7), w(0), w(1)])].into())),
    )
}
const STATICS: usize = 78;

fn case_static(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (name, mut u) = statics(r, i % STATICS);
    rec.ctx = format!("{} sr {}", name, sr);
    u.set_sample_rate(sr);
    let audio = u.inputs();
    let h = impulse_response(&u, audio, &[], 40000, r).ok_or("impulse response of an FIR graph does not end")?;
    let f = sr * r.uni(0.01, 0.49);
    let fs = freqs(r, sr, f);
    // Outputs that carry only constants have no response.
    let must = h.iter().all(|c| c.iter().any(|x| *x != 0.0));
    check(&mut u, &h, sr, &fs, 1e-3, rec, must)?;
    display(&mut u)?;
    // Within a Net the result is the same.
    let mut net: U = Box::new(Net::wrap(u.clone()));
    net.set_sample_rate(sr);
    check(&mut net, &h, sr, &fs, 1e-3, rec, must)?;
    rec.count("combinators", 1);
    rec.distinct(&format!("{} {}", rec.ctx, f));
    Ok(())
}

/// The printed summary agrees with the queries.
fn display(u: &mut U) -> Result<(), String> {
    let text = u.display();
    let line = |k: &str| text.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim_start_matches([' ', ':']).to_string());
    for (k, n) in [("Inputs", u.inputs()), ("Outputs", u.outputs())] {
        if line(k) != Some(n.to_string()) {
            return Err(format!("display says {} {:?}, expected {}", k, line(k), n));
        }
    }
    let l = format!("{:.1} samples", u.latency().unwrap_or(0.0));
    if line("Latency") != Some(l.clone()) {
        return Err(format!("display says latency {:?}, expected {}", line("Latency"), l));
    }
    let shown = u.inputs() > 0 && u.response(0, 440.0).is_some();
    let Some(peak) = line("Peak Magnitude") else {
        return if shown { Err("display shows no response".into()) } else { Ok(()) };
    };
    let peak: f64 = peak.split(' ').next().unwrap().parse().map_err(|e| format!("{:?}", e))?;
    let mut most = f64::NEG_INFINITY;
    for f in [10.0, 100.0, 200.0, 500.0, 1000.0, 2000.0, 5000.0, 10000.0, 12000.0, 14000.0, 16000.0, 18000.0, 20000.0, 22000.0] {
        let (z, d) = (u.response(0, f).unwrap(), u.response_db(0, f).unwrap());
        if (d - 20.0 * z.norm().log10()).abs() > 1e-6 {
            return Err(format!("response_db {} at {} Hz, response {}", d, f, z));
        }
        most = most.max(d);
    }
    if peak < most - 0.011 {
        return Err(format!("display says the peak is {} dB, the response reaches {} dB", peak, most));
    }
    Ok(())
}

/// Nonlinear and signal-free paths have no response.
fn case_none(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (a, b) = (fr(r), d2(r));
    macro_rules! list {
        ($($e:expr),* $(,)?) => {{
            let v: Vec<(&str, U)> = vec![$( (stringify!($e), Box::new($e)) ),*];
            v
        }};
    }
    let mut v = list!(
        a.clone() >> shape(Tanh(1.0)) >> b.clone(),
        a.clone() & (b.clone() >> shape(Clip(1.0))),
        a.clone() * b.clone(),
        split::<U2>() >> a.clone() * b.clone(),
        a.clone() >> sine::<f64>(),
        a.clone() + noise(),
        a.clone() * noise(),
        a.clone() >> moog_hz::<f64>(1000.0, 0.3),
        noise() >> b.clone(),
        dc(1.0) >> b.clone(),
        sine_hz::<f64>(440.0) >> lowpass_hz::<f64>(1000.0, 1.0),
        a.clone() >> meter(Meter::Rms(0.1)),
        (a.clone() | dc(0.01)) >> tap(0.001, 0.1),
        (a.clone() | dc(0.01)) >> tap_linear(0.001, 0.1),
        (a.clone() | dc(0.01) | dc(0.02)) >> multitap::<U2>(0.001, 0.1),
        (a.clone() | dc(0.01) | dc(0.02)) >> multitap_linear::<U2>(0.001, 0.1),
        a.clone() >> afollow::<f64>(0.01, 0.1),
        a.clone() >> afollow::<f64>(0.1, 0.01),
        a.clone() >> afollow::<f32>(0.02, 0.019),
        a.clone() >> afollow::<f32>(0.0, 0.2),
        dlowpass_hz(Tanh(1.0), 1000.0, 1.0) >> b.clone(),
        a.clone() >> fresonator_hz(Softsign(1.0), 1000.0, 1.0),
        a.clone() >> shape_fn(|x| x * x),
        (a.clone() | b.clone()) >> map(|i: &Frame<f32, U2>| i[0] * i[1]),
        white() | dc(1.0),
        pulse(),
        saw_hz(440.0),
    );
    let k = i % v.len();
    let (name, mut u) = v.swap_remove(k);
    u.set_sample_rate(sr);
    rec.ctx = format!("nonlinear: {}", name);
    let mut net: U = Box::new(Net::wrap(u.clone()));
    for _ in 0..4 {
        let f = sr * r.uni(0.001, 0.499);
        for c in 0..u.outputs() {
            if u.response(c, f).is_some() || net.response(c, f).is_some() || u.response_db(c, f).is_some() {
                return Err(format!("output {} claims a frequency response", c));
            }
        }
    }
    rec.distinct(&format!("{} {}", name, sr));
    Ok(())
}

/// A filter with parameter inputs and the same filter with fixed parameters.
fn pair(r: &mut Rng, k: usize, p: &[f32], d: bool) -> (&'static str, usize, U, U) {
    let (f, q, g) = (p[0], p[1], p[2]);
    let (fd, qd, gd) = (f as f64, q as f64, g as f64);
    let sh = r.lf(0.3, 3.0);
    let t = r.f(0.01, 0.1);
    macro_rules! real {
        ($n:expr, $i:expr, $v64:expr, $v32:expr, $h64:expr, $h32:expr) => {
            if d { ($n, $i, Box::new($v64) as U, Box::new($h64) as U) } else { ($n, $i, Box::new($v32) as U, Box::new($h32) as U) }
        };
    }
    macro_rules! p1 {
        ($v:ident, $h:ident) => { real!(stringify!($v), 1, $v::<f64>(), $v::<f32>(), $h::<f64>(fd), $h::<f32>(f)) };
    }
    macro_rules! p2 {
        ($v:ident, $h:ident) => { real!(stringify!($v), 2, $v::<f64>(), $v::<f32>(), $h::<f64>(fd, qd), $h::<f32>(f, q)) };
    }
    macro_rules! p3 {
        ($v:ident, $h:ident) => { real!(stringify!($v), 3, $v::<f64>(), $v::<f32>(), $h::<f64>(fd, qd, gd), $h::<f32>(f, q, g)) };
    }
    macro_rules! s2 {
        ($v:ident, $h:ident) => {
            match r.below(4) {
                0 => real!(stringify!($v), 2, $v::<f64, _>(Tanh(sh)), $v::<f32, _>(Tanh(sh)), $h::<f64, _>(Tanh(sh), fd, qd), $h::<f32, _>(Tanh(sh), f, q)),
                1 => real!(stringify!($v), 2, $v::<f64, _>(Softsign(sh)), $v::<f32, _>(Softsign(sh)), $h::<f64, _>(Softsign(sh), fd, qd), $h::<f32, _>(Softsign(sh), f, q)),
                2 => real!(stringify!($v), 2, $v::<f64, _>(Clip(sh)), $v::<f32, _>(Clip(sh)), $h::<f64, _>(Clip(sh), fd, qd), $h::<f32, _>(Clip(sh), f, q)),
                _ => real!(stringify!($v), 2, $v::<f64, _>(Adaptive::new(t, Tanh(sh))), $v::<f32, _>(Adaptive::new(t, Tanh(sh))), $h::<f64, _>(Adaptive::new(t, Tanh(sh)), fd, qd), $h::<f32, _>(Adaptive::new(t, Tanh(sh)), f, q)),
            }
        };
    }
    macro_rules! s3 {
        ($v:ident, $h:ident) => {
            match r.below(2) {
                0 => real!(stringify!($v), 3, $v::<f64, _>(Tanh(sh)), $v::<f32, _>(Tanh(sh)), $h::<f64, _>(Tanh(sh), fd, qd, gd), $h::<f32, _>(Tanh(sh), f, q, g)),
                _ => real!(stringify!($v), 3, $v::<f64, _>(Adaptive::new(t, Atan(sh))), $v::<f32, _>(Adaptive::new(t, Atan(sh))), $h::<f64, _>(Adaptive::new(t, Atan(sh)), fd, qd, gd), $h::<f32, _>(Adaptive::new(t, Atan(sh)), f, q, g)),
            }
        };
    }
    match k {
        0 => p2!(lowpass, lowpass_hz),
        1 => p2!(highpass, highpass_hz),
        2 => p2!(bandpass, bandpass_hz),
        3 => p2!(notch, notch_hz),
        4 => p2!(peak, peak_hz),
        5 => p2!(allpass, allpass_hz),
        6 => p3!(bell, bell_hz),
        7 => p3!(lowshelf, lowshelf_hz),
        8 => p3!(highshelf, highshelf_hz),
        9 => p1!(butterpass, butterpass_hz),
        10 => p2!(resonator, resonator_hz),
        11 => p1!(lowpole, lowpole_hz),
        12 => p1!(highpole, highpole_hz),
        13 => real!("moog", 2, moog::<f64>(), moog::<f32>(), moog_hz::<f64>(fd, qd), moog_hz::<f32>(f, q)),
        14 => p2!(lowrez, lowrez_hz),
        15 => p2!(bandrez, bandrez_hz),
        16 => s2!(fresonator, fresonator_hz),
        17 => s2!(dresonator, dresonator_hz),
        18 => s2!(flowpass, flowpass_hz),
        19 => s2!(dlowpass, dlowpass_hz),
        20 => s2!(fhighpass, fhighpass_hz),
        21 => s2!(dhighpass, dhighpass_hz),
        22 => s3!(fbell, fbell_hz),
        23 => s3!(dbell, dbell_hz),
        _ => real!("morph", 3, morph::<f64>(), morph::<f32>(), morph_hz::<f64>(fd, qd, gd), morph_hz::<f32>(f, q, g)),
    }
}
const PAIRS: usize = 25;

/// Whatever the parameter inputs were before, a filter at rest filters like its fixed form from now on.
fn case_pair(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let k = i % PAIRS;
    let mut p = |r: &mut Rng| {
        // Mild resonance where Q is a feedback amount.
        let q = if (13..16).contains(&k) { r.f(0.02, 0.4) } else { r.lf(0.4, 4.0) };
        let g = if k == 24 { r.f(-1.0, 1.0) } else { r.lf(0.25, 4.0) };
        [(sr * r.log(0.01, 0.15)) as f32, q, g]
    };
    let now = p(r);
    let (name, np, mut a, mut b) = pair(r, k, &now, r.0 & 1 == 0);
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let mut hist = vec![];
    for _ in 0..r.below(4) {
        let mut old = now;
        let other = p(r);
        for c in 0..3 {
            if r.chance(0.4) {
                old[c] = other[c];
            }
        }
        let n = r.usize(1, 150);
        let steps = partition(r, n);
        let mut x = vec![vec![0.0; n]];
        render(b.as_mut(), &x, &steps);
        x.extend((0..np).map(|c| vec![old[c]; n]));
        render(a.as_mut(), &x, &steps);
        hist.push(old);
    }
    rec.ctx = format!("{} at {} Hz with {:?} after {:?}", name, sr, &now[..np], hist);
    for _ in 0..2 {
        let n = r.usize(1, 400);
        let steps = partition(r, n);
        let mut x = vec![vh::audio(r, n)];
        let want = render(b.as_mut(), &x, &steps);
        x.extend((0..np).map(|c| vec![now[c]; n]));
        let got = render(a.as_mut(), &x, &steps);
        let m = want[0].iter().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
        rec.count("samples_compared", n as u64);
        vh::compare(&want, &got, 2e-4 * m, 0.0).map_err(|e| format!("{} (fixed parameters vs the same on the inputs)", e))?;
    }
    rec.count(&format!("pair:{}", name), 1);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P13", "distinct filters, linear combinator graphs and networks, each with parameters, sample rate and measured impulse response");
    let n = c.scale(6, 60);
    c.par("single", 28 * 120 * n, case_single);
    c.par("static", STATICS * 30 * n, case_static);
    c.par("graph", 4000 * n, |_, rec| case_graph(rec));
    c.par("parameter_inputs", PAIRS * 200 * n, case_pair);
    c.par("none", 400 * n, case_none);
    c.assumptions.push("impulse responses that do not decay within 60000 samples are skipped (counted)".into());
    c.assumptions.push("limiter, declick, monitor and oversampler, documented to pretend linearity, are not judged".into());
    c.finish();
}
