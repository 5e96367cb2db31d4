//! P24: mixing, panning and shaping apply their documented function to every sample and channel.
use fundsp::hacker32::*;
use vh::{partition, rate, render, Chans, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;
type Model = Box<dyn Fn(&[f64]) -> Vec<f64>>;

/// Values of all kinds: grid points and ties, tiny, ordinary and large.
fn value(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => r.int(-8, 8) as f32,
        1 => r.int(-16, 16) as f32 * 0.5,
        2 => r.int(-64, 64) as f32 * 0.125,
        3 => {
            if r.chance(0.5) {
                0.0
            } else {
                -0.0
            }
        }
        4 => r.lf(1e-30, 1e-3) * if r.chance(0.5) { 1.0 } else { -1.0 },
        5 => r.lf(1.0, 1e4) * if r.chance(0.5) { 1.0 } else { -1.0 },
        6 => r.f(-8.0, 8.0),
        _ => r.f(-1.0, 1.0),
    }
}

fn signal(r: &mut Rng, n: usize) -> Vec<f32> {
    let mode = r.below(4);
    let c = value(r);
    (0..n)
        .map(|_| match mode {
            0 => c,
            1 => r.f(-1.0, 1.0),
            _ => value(r),
        })
        .collect()
}

fn mk(f: impl Fn(&[f64]) -> Vec<f64> + 'static) -> Model {
    Box::new(f)
}

fn memoryless(r: &mut Rng) -> (String, U, Model, f64) {
    let h = match r.below(4) {
        0 => *r.pick(&[0.5f32, 1.0, 2.0, 4.0, 8.0]),
        1 => r.lf(0.01, 100.0),
        _ => r.f(0.1, 10.0),
    };
    let hd = h as f64;
    let a = r.f(-4.0, 4.0);
    let b = r.f(-4.0, 4.0);
    let (ad, bd) = (a as f64, b as f64);
    let t = 3e-6;
    macro_rules! m {
        ($name:expr, $u:expr, $tol:expr, $f:expr) => {
            ($name, Box::new($u) as U, mk($f), $tol)
        };
    }
    let pi = std::f64::consts::PI;
    let panw = move |v: f64| {
        let v = if v < -1.0 { -1.0 } else if v > 1.0 { 1.0 } else { v };
        let ang = (v + 1.0) * pi / 4.0;
        (ang.cos(), ang.sin())
    };
    match r.below(46) {
        0 => m!("clip()".into(), clip(), 0.0, |x| vec![f64::clamp(x[0], -1.0, 1.0)]),
        1 => {
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            m!(format!("clip_to({}, {})", lo, hi), clip_to(lo, hi), 0.0, move |x| vec![f64::clamp(x[0], lo as f64, hi as f64)])
        }
        2 => m!(format!("Clip({})", h), shape(Clip(h)), t, move |x| vec![f64::clamp(x[0] * hd, -1.0, 1.0)]),
        3 => m!(format!("Tanh({})", h), shape(Tanh(h)), t, move |x| vec![(x[0] * hd).tanh()]),
        4 => m!(format!("Atan({})", h), shape(Atan(h)), t, move |x| vec![(x[0] * hd * pi / 2.0).atan() * 2.0 / pi]),
        5 => m!(format!("Softsign({})", h), shape(Softsign(h)), t, move |x| vec![x[0] * hd / (1.0 + (x[0] * hd).abs())]),
        6 => m!(format!("Softsign(-{})", h), shape(Softsign(-h)), t, move |x| vec![-x[0] * hd / (1.0 + (x[0] * hd).abs())]),
        7 => {
            // A staircase: the exact level, except near the steps.
            m!(format!("Crush({})", h), shape(Crush(h)), 1e-5, move |x| {
                let y = (x[0] as f32 * h) as f64;
                let edge = (y - y.floor() - 0.5).abs() < 1e-5 * (1.0 + y.abs());
                if edge {
                    vec![f64::NAN]
                } else {
                    vec![(y + 0.5).floor() / hd]
                }
            })
        }
        8 => m!(format!("SoftCrush({})", h), shape(SoftCrush(h)), 1e-4 * (1.0 + 1.0 / hd), move |x| {
            let y = (x[0] as f32 * h) as f64;
            let u = y - y.floor();
            let s = u.powi(5) * (126.0 + u * (-420.0 + u * (540.0 + u * (-315.0 + u * 70.0))));
            vec![(y.floor() + s) / hd]
        }),
        9 => m!("shape_fn".into(), shape_fn(move |x| x * x * 0.5 - a), 1e-5, move |x| vec![x[0] * x[0] * 0.5 - ad]),
        10 => m!("map to three".into(), map(|i: &Frame<f32, U2>| (max(i[0], i[1]), i[0] - i[1], i[1])), t, |x| vec![f64::max(x[0], x[1]), x[0] - x[1], x[1]]),
        11 => m!("map".into(), map(|i: &Frame<f32, U3>| i[0] * 0.5 + i[2]), t, |x| vec![x[0] * 0.5 + x[2]]),
        12 => {
            let p = r.f(-1.5, 1.5);
            m!(format!("pan({})", p), pan(p), t, move |x| vec![x[0] * panw(p as f64).0, x[0] * panw(p as f64).1])
        }
        13 | 14 => m!("panner".into(), panner(), t, move |x| vec![x[0] * panw(x[1]).0, x[0] * panw(x[1]).1]),
        15 => {
            let g = r.f(-2.0, 2.0);
            let gd = g as f64;
            m!(format!("rotate({}, {})", a, g), rotate(a, g), t, move |x| vec![gd * (x[0] * ad.cos() - x[1] * ad.sin()), gd * (x[0] * ad.sin() + x[1] * ad.cos())])
        }
        16 => m!(format!("add({})", a), add(a), t, move |x| vec![x[0] + ad]),
        17 => m!(format!("sub({})", a), sub(a), t, move |x| vec![x[0] - ad]),
        18 => m!(format!("mul({})", a), mul(a), t, move |x| vec![x[0] * ad]),
        19 => m!(format!("add(({}, {}))", a, b), add((a, b)), t, move |x| vec![x[0] + ad, x[1] + bd]),
        20 => m!(format!("sub(({}, {}))", a, b), sub((a, b)), t, move |x| vec![x[0] - ad, x[1] - bd]),
        21 => m!(format!("mul(({}, {}, 2))", a, b), mul((a, b, 2.0)), t, move |x| vec![x[0] * ad, x[1] * bd, x[2] * 2.0]),
        22 => m!(format!("pass() * {}", a), pass() * a, t, move |x| vec![x[0] * ad]),
        23 => m!(format!("{} - multipass", a), a - multipass::<U2>(), t, move |x| vec![ad - x[0], ad - x[1]]),
        24 => m!(format!("multipass + {}", a), multipass::<U3>() + a, t, move |x| vec![x[0] + ad, x[1] + ad, x[2] + ad]),
        25 => m!(format!("multipass - {}", a), multipass::<U2>() - a, t, move |x| vec![x[0] - ad, x[1] - ad]),
        26 => m!("negation".into(), -multipass::<U2>(), 0.0, |x| vec![-x[0], -x[1]]),
        27 => m!("ring modulation".into(), pass() * pass(), t, |x| vec![x[0] * x[1]]),
        28 => m!("difference".into(), multipass::<U2>() - multipass::<U2>(), t, |x| vec![x[0] - x[2], x[1] - x[3]]),
        29 => m!("split".into(), split::<U4>(), 0.0, |x| vec![x[0]; 4]),
        30 => m!("join".into(), join::<U4>(), t, |x| vec![(x[0] + x[1] + x[2] + x[3]) / 4.0]),
        31 => m!("join of five".into(), join::<U5>(), t, |x| vec![x.iter().sum::<f64>() / 5.0]),
        32 => m!("multisplit".into(), multisplit::<U2, U3>(), 0.0, |x| vec![x[0], x[1], x[0], x[1], x[0], x[1]]),
        33 => m!("multijoin".into(), multijoin::<U2, U3>(), t, |x| vec![(x[0] + x[2] + x[4]) / 3.0, (x[1] + x[3] + x[5]) / 3.0]),
        34 => m!("multijoin 3x2".into(), multijoin::<U3, U2>(), t, |x| vec![(x[0] + x[3]) / 2.0, (x[1] + x[4]) / 2.0, (x[2] + x[5]) / 2.0]),
        35 => m!("reverse".into(), reverse::<U3>(), 0.0, |x| vec![x[2], x[1], x[0]]),
        36 => m!("swap".into(), reverse::<U2>(), 0.0, |x| vec![x[1], x[0]]),
        37 => m!("sink".into(), (sink() | pass()) >> (pass() ^ pass()), 0.0, |x| vec![x[1], x[1]]),
        38 => m!("multisink".into(), multisink::<U2>() | multipass::<U2>(), 0.0, |x| vec![x[2], x[3]]),
        39 => m!(format!("dc(({}, {}))", a, b), dc((a, b)), 0.0, move |_| vec![ad, bd]),
        40 => m!("multizero".into(), multizero::<U3>() | zero(), 0.0, |_| vec![0.0; 4]),
        41 | 42 => {
            macro_rules! matrix {
                ($i:ty, $o:ty, $ni:expr, $no:expr) => {{
                    let m: [[f32; $ni]; $no] = core::array::from_fn(|_| core::array::from_fn(|_| r.f(-2.0, 2.0)));
                    let md = m.map(|row| row.map(|x| x as f64));
                    let rows: Frame<Frame<f32, $i>, $o> = m.map(|row| Frame::from(row)).into();
                    m!(format!("matrix {:?}", m), An(Mixer::<$i, $o>::new(rows)), $ni as f64 * t, move |x| md.iter().map(|row| row.iter().zip(x.iter()).map(|(a, b)| a * b).sum()).collect())
                }};
            }
            match r.usize(0, 7) {
                0 => matrix!(U3, U2, 3, 2),
                1 => matrix!(U2, U3, 2, 3),
                2 => matrix!(U1, U1, 1, 1),
                3 => matrix!(U1, U5, 1, 5),
                4 => matrix!(U6, U1, 6, 1),
                5 => matrix!(U5, U7, 5, 7),
                6 => matrix!(U8, U8, 8, 8),
                _ => matrix!(U9, U4, 9, 4),
            }
        }
        43 => m!("sum of channels".into(), sumi::<U3, _, _>(|i| mul(i as f32 + 0.5)), t, |x| vec![0.5 * x[0] + 1.5 * x[1] + 2.5 * x[2]]),
        44 => m!("mid-side and back".into(), (map(|i: &Frame<f32, U2>| ((i[0] + i[1]) * 0.5, (i[0] - i[1]) * 0.5))) >> map(|i: &Frame<f32, U2>| (i[0] + i[1], i[0] - i[1])), t, |x| vec![x[0], x[1]]),
        _ => m!("wet and dry".into(), (0.25 * pass()) & (0.75 * pass()), t, |x| vec![x[0]]),
    }
}

fn case_memoryless(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let (name, mut u, f, tol) = memoryless(r);
    rec.ctx = name.clone();
    if r.chance(0.3) {
        u.set_sample_rate(rate(r));
    }
    for round in 0..2 {
        let n = r.usize(1, 200);
        let pans = name == "panner";
        let x: Chans = (0..u.inputs())
            .map(|c| if pans && c == 1 { (0..n).map(|_| if r.chance(0.2) { *r.pick(&[-1.0, 0.0, 1.0, 1.5, -2.0]) } else { r.f(-1.2, 1.2) }).collect() } else { signal(r, n) })
            .collect();
        let st = partition(r, n);
        let y = render(u.as_mut(), &x, &st);
        // The scalar path on its own: one sample at a time, in a different order.
        let mut v = u.clone();
        let mut o = vec![0.0f32; u.outputs()];
        let stride = *r.pick(&[1usize, 3, 7, 11]);
        for k in 0..n {
            let i = (k * stride + 5) % n;
            let fi: Vec<f32> = x.iter().map(|c| c[i]).collect();
            let fd: Vec<f64> = fi.iter().map(|x| *x as f64).collect();
            let mag = 1.0 + fd.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
            v.tick(&fi, &mut o);
            let want = f(&fd);
            for c in 0..want.len() {
                let (s, b, w) = (o[c] as f64, y[c][i] as f64, want[c]);
                let mag = if w.is_nan() { mag } else { mag.max(w.abs()) };
                if !w.is_nan() && ((s - w).abs() > tol * mag || s.is_nan()) {
                    return Err(format!("round {} ticked output {} of {:?} is {}, expected {}", round, c, fi, s, w));
                }
                if !w.is_nan() && ((b - w).abs() > tol * mag || b.is_nan()) {
                    return Err(format!("round {} output {} of {:?} in a block is {}, expected {}", round, c, fi, b, w));
                }
                if (s - b).abs() > tol.max(1e-6) * mag {
                    return Err(format!("round {} output {} of {:?} is {} when ticked and {} in a block", round, c, fi, s, b));
                }
            }
        }
        if r.chance(0.3) {
            u.reset();
        }
        rec.count("samples", n as u64);
    }
    rec.distinct(&name);
    Ok(())
}

/// Equal power: the squares of the channels add up to the square of the input.
fn case_pan(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let p = r.f(-1.0, 1.0);
    let q = r.f(-1.0, 1.0);
    rec.ctx = format!("pan {} and {}", p, q);
    let x = r.f(-2.0, 2.0);
    let (l, rr) = pan(p).filter_mono_pair(x);
    let e = (l * l + rr * rr) as f64;
    if (e - (x * x) as f64).abs() > 1e-5 {
        return Err(format!("power of {} becomes {}", x * x, e));
    }
    let (l2, r2) = pan(-p).filter_mono_pair(x);
    if (l - r2).abs() > 1e-5 || (rr - l2).abs() > 1e-5 {
        return Err(format!("pan is not symmetric: {} {} and {} {}", l, rr, l2, r2));
    }
    // Further right is louder on the right.
    let (a, b) = (pan(p).filter_mono_pair(1.0), pan(q).filter_mono_pair(1.0));
    if (p < q && (a.1 > b.1 + 1e-6 || a.0 < b.0 - 1e-6)) || (p > q && (a.1 < b.1 - 1e-6 || a.0 > b.0 + 1e-6)) {
        return Err(format!("pan is not monotonic: {:?} and {:?}", a, b));
    }
    for (v, w) in [(-1.0, (1.0, 0.0)), (1.0, (0.0, 1.0)), (0.0, (0.5f32.sqrt(), 0.5f32.sqrt()))] {
        let g = pan(v).filter_mono_pair(1.0);
        if (g.0 - w.0).abs() > 1e-6 || (g.1 - w.1).abs() > 1e-6 {
            return Err(format!("pan({}) has weights {:?}", v, g));
        }
    }
    // Rotation keeps power and composes.
    let (s, t) = (r.f(-4.0, 4.0), r.f(-4.0, 4.0));
    let g = r.f(0.1, 2.0);
    let y = r.f(-2.0, 2.0);
    let one = (rotate(s, 1.0) >> rotate(t, g)).filter_stereo(x, y);
    let two = rotate(s + t, g).filter_stereo(x, y);
    if (one.0 - two.0).abs() > 2e-5 || (one.1 - two.1).abs() > 2e-5 {
        return Err(format!("rotations by {} and {} compose to {:?}, expected {:?}", s, t, one, two));
    }
    let pw = (one.0 * one.0 + one.1 * one.1) as f64;
    if (pw - ((x * x + y * y) * g * g) as f64).abs() > 1e-4 {
        return Err(format!("rotation changes power to {}", pw));
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

trait Pair {
    fn filter_mono_pair(self, x: f32) -> (f32, f32);
}
impl<X: AudioNode<Inputs = U1, Outputs = U2>> Pair for An<X> {
    fn filter_mono_pair(mut self, x: f32) -> (f32, f32) {
        let y = self.tick(&[x].into());
        (y[0], y[1])
    }
}

/// The adaptive shape normalizes by the smoothed level.
fn case_adaptive(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let ts = r.lf(0.001, 0.5);
    let sr = rate(r);
    let h = r.f(0.2, 2.0);
    let kind = r.below(3);
    let mut u: U = match kind {
        0 => Box::new(shape(Adaptive::new(ts, Tanh(h)))),
        1 => Box::new(shape(Adaptive::new(ts, Softsign(h)))),
        _ => Box::new(shape(Adaptive::new(ts, Clip(h)))),
    };
    rec.ctx = format!("Adaptive({}, kind {} hardness {}) at {} Hz", ts, kind, h, sr);
    u.set_sample_rate(sr);
    for round in 0..2 {
        let n = r.usize(1, 2000);
        let amp = r.lf(1e-4, 10.0);
        let x: Chans = vec![(0..n).map(|_| r.f(-amp, amp)).collect()];
        let st = partition(r, n);
        let y = render(u.as_mut(), &x, &st);
        let k = 0.5f64.powf(1.0 / (ts as f64 * sr));
        let mut level = 1.0e-3f64;
        for i in 0..n {
            let v = x[0][i] as f64;
            level = k * level + (1.0 - k) * (1.0e-6 + v * v);
            let z = v / level.sqrt() * h as f64;
            let w = match kind {
                0 => z.tanh(),
                1 => z / (1.0 + z.abs()),
                _ => f64::clamp(z, -1.0, 1.0),
            };
            // Smoothing in single precision.
            if (w - y[0][i] as f64).abs() > 2e-2 {
                return Err(format!("round {} sample {}: {} expected {}", round, i, y[0][i], w));
            }
        }
        u.reset();
        rec.count("samples", n as u64);
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Impulse: one at the beginning, zero afterwards, on each channel; again after a reset.
fn case_impulse(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut u: U = match r.below(3) {
        0 => Box::new(impulse::<U1>()),
        1 => Box::new(impulse::<U2>()),
        _ => Box::new(impulse::<U7>()),
    };
    rec.ctx = format!("impulse of {} channels", u.outputs());
    for _ in 0..3 {
        let n = r.usize(1, 300);
        let st = partition(r, n);
        let y = render(u.as_mut(), &vec![], &st);
        for c in &y {
            for i in 0..n {
                if c[i] != if i == 0 { 1.0 } else { 0.0 } {
                    return Err(format!("sample {} is {}", i, c[i]));
                }
            }
        }
        u.reset();
        if r.chance(0.3) {
            u.set_sample_rate(rate(r));
            u.reset();
        }
    }
    rec.distinct(&format!("{} {:x}", rec.ctx, r.u64()));
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P24", "distinct mixing, panning and shaping units with parameters and inputs");
    let n = c.scale(10, 200);
    c.par("memoryless", 20000 * n, |_, rec| case_memoryless(rec));
    c.par("pan", 10000 * n, |_, rec| case_pan(rec));
    c.par("adaptive", 1000 * n, |_, rec| case_adaptive(rec));
    c.par("impulse", 300 * n, |_, rec| case_impulse(rec));
    c.finish();
}
