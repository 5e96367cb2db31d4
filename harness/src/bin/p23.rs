//! P23: math helpers satisfy their documented contracts on their whole domain.
use fundsp::hacker32::*;
use fundsp::math as m;
use fundsp::wide::{f32x8, f64x4};
use fundsp::{full_simd_items, simd_items, Float, Int, Num, Real};
use std::collections::HashSet;
use vh::{Ctx, Rec, Rng};

type R = Result<(), String>;

fn near(name: &str, got: f64, want: f64, tol: f64) -> R {
    if got == want || (got - want).abs() <= tol * (1.0 + want.abs()) {
        Ok(())
    } else {
        Err(format!("{}: {} expected {}", name, got, want))
    }
}

fn ensure(c: bool, what: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(what())
    }
}

/// A real number of one of several magnitudes.
fn real(r: &mut Rng) -> f64 {
    let s = if r.chance(0.5) { 1.0 } else { -1.0 };
    match r.below(8) {
        0 => r.int(-20, 20) as f64,
        1 => r.int(-20, 20) as f64 * 0.5,
        2 => s * r.log(1e-6, 1e-2),
        3 => s * r.log(1e-2, 1.0),
        4 => s * r.log(1.0, 1e4),
        5 => r.uni(-1.0, 1.0),
        6 => r.int(-1000, 1000) as f64 + s * 1e-6,
        _ => r.uni(-10.0, 10.0),
    }
}

fn unit01(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.f64(),
    }
}

/// Generalised smoothstep of degree 2n + 1.
fn smoothstep(n: i64, x: f64) -> f64 {
    fn binom(a: i64, b: i64) -> f64 {
        (0..b).fold(1.0, |p, i| p * (a - i) as f64 / (i + 1) as f64)
    }
    let mut s = 0.0;
    for k in 0..=n {
        s += binom(n + k, k) * binom(2 * n + 1, n - k) * (-x).powi(k as i32);
    }
    s * x.powi(n as i32 + 1)
}

/// Checks common to f32 and f64.
fn scalar<T: Real>(r: &mut Rng, eps: f64) -> R {
    let t = |x: f64| T::from_f64(x);
    let f = |x: T| x.to_f64();
    // Exactly representable arguments.
    let x = f(t(real(r)));
    let y = f(t(real(r)));
    let z = f(t(real(r)));
    let u = f(t(unit01(r)));
    let e = eps;
    // Elementary functions.
    near("abs", f(m::abs(t(x))), x.abs(), 0.0)?;
    near("signum", f(m::signum(t(x))), if x < 0.0 { -1.0 } else { 1.0 }, 0.0)?;
    near("min", f(m::min(t(x), t(y))), if x < y { x } else { y }, 0.0)?;
    near("max", f(m::max(t(x), t(y))), if x < y { y } else { x }, 0.0)?;
    near("floor", f(m::floor(t(x))), x.floor(), 0.0)?;
    near("ceil", f(m::ceil(t(x))), x.ceil(), 0.0)?;
    near("round", f(m::round(t(x))), x.round(), 0.0)?;
    near("squared", f(m::squared(t(x))), x * x, e)?;
    near("cubed", f(m::cubed(t(x))), x * x * x, e)?;
    near("identity", f(m::identity(t(x))), x, 0.0)?;
    near("sqrt", f(m::sqrt(t(x.abs()))), x.abs().sqrt(), e)?;
    near("sin", f(m::sin(t(x))), x.sin(), e)?;
    near("cos", f(m::cos(t(x))), x.cos(), e)?;
    let s = r.uni(-1.4, 1.4);
    let s = f(t(s));
    near("tan", f(m::tan(t(s))), s.tan(), 4.0 * e)?;
    near("tanh", f(m::tanh(t(x))), x.tanh(), e)?;
    near("atan", f(m::atan(t(x))), x.atan(), e)?;
    let g = f(t(r.uni(-30.0, 30.0)));
    let ge = e * (1.0 + g.abs());
    near("exp", f(m::exp(t(g))), g.exp(), ge)?;
    near("exp2", f(m::exp2(t(g))), g.exp2(), ge)?;
    near("exp10", f(m::exp10(t(g))), 10f64.powf(g), 4.0 * ge)?;
    let p = f(t(r.log(1e-6, 1e6)));
    near("log", f(m::log(t(p))), p.ln(), e)?;
    near("log2", f(m::log2(t(p))), p.log2(), e)?;
    near("log10", f(m::log10(t(p))), p.log10(), e)?;
    let q = f(t(r.uni(-3.0, 3.0)));
    near("pow", f(m::pow(t(p), t(q))) / p.powf(q), 1.0, 60.0 * e)?;
    // Clamps.
    let (lo, hi) = if x < y { (x, y) } else { (y, x) };
    near("clamp", f(m::clamp(t(lo), t(hi), t(z))), if z < lo { lo } else if z > hi { hi } else { z }, 0.0)?;
    near("clamp01", f(m::clamp01(t(z))), if z < 0.0 { 0.0 } else if z > 1.0 { 1.0 } else { z }, 0.0)?;
    near("clamp11", f(m::clamp11(t(z))), if z < -1.0 { -1.0 } else if z > 1.0 { 1.0 } else { z }, 0.0)?;
    // Interpolation.
    let scale = 1.0 + x.abs() + y.abs();
    near("lerp", f(m::lerp(t(x), t(y), t(u))) / scale, (x * (1.0 - u) + y * u) / scale, e)?;
    near("lerp at 0", f(m::lerp(t(x), t(y), t(0.0))), x, 0.0)?;
    near("lerp at 1", f(m::lerp(t(x), t(y), t(1.0))), y, 0.0)?;
    near("lerp11", f(m::lerp11(t(x), t(y), t(u * 2.0 - 1.0))) / scale, (x * (1.0 - u) + y * u) / scale, 4.0 * e)?;
    near("lerp11 at -1", f(m::lerp11(t(x), t(y), t(-1.0))), x, 0.0)?;
    near("lerp11 at 1", f(m::lerp11(t(x), t(y), t(1.0))), y, 0.0)?;
    if (x - y).abs() > 1e-2 * scale {
        near("delerp", f(m::delerp(t(x), t(y), m::lerp(t(x), t(y), t(u)))), u, 800.0 * e)?;
        near("delerp11", f(m::delerp11(t(x), t(y), m::lerp11(t(x), t(y), t(2.0 * u - 1.0)))), 2.0 * u - 1.0, 1600.0 * e)?;
        near("delerp of a", f(m::delerp(t(x), t(y), t(x))), 0.0, 0.0)?;
        near("delerp of b", f(m::delerp(t(x), t(y), t(y))), 1.0, 2.0 * e)?;
    }
    let a = f(t(r.log(1e-3, 1e4)));
    let b = f(t(r.log(1e-3, 1e4)));
    let geo = a.powf(1.0 - u) * b.powf(u);
    near("xerp", f(m::xerp(t(a), t(b), t(u))) / geo, 1.0, 40.0 * e)?;
    near("xerp11", f(m::xerp11(t(a), t(b), t(2.0 * u - 1.0))) / geo, 1.0, 60.0 * e)?;
    if (a / b).ln().abs() > 0.1 {
        near("dexerp", f(m::dexerp(t(a), t(b), t(geo))), u, 200.0 * e)?;
        near("dexerp11", f(m::dexerp11(t(a), t(b), t(geo))), 2.0 * u - 1.0, 400.0 * e)?;
    }
    // Levels and pitches.
    let db = f(t(r.uni(-120.0, 60.0)));
    near("db_amp", f(m::db_amp(t(db))) / 10f64.powf(db / 20.0), 1.0, 40.0 * e)?;
    near("amp_db", f(m::amp_db(t(p))), 20.0 * p.log10(), 4.0 * e)?;
    near("amp_db of db_amp", f(m::amp_db(m::db_amp(t(db)))), db, 40.0 * e)?;
    let semi = f(t(r.uni(-60.0, 60.0)));
    near("semitone_ratio", f(m::semitone_ratio(t(semi))) / (semi / 12.0).exp2(), 1.0, 20.0 * e)?;
    let note = f(t(r.uni(-20.0, 140.0)));
    near("midi_hz", f(m::midi_hz(t(note))) / (440.0 * ((note - 69.0) / 12.0).exp2()), 1.0, 30.0 * e)?;
    near("bpm_hz", f(m::bpm_hz(t(p))), p / 60.0, 2.0 * e)?;
    // Psychoacoustics.
    let f0 = f(t(r.log(20.0, 20000.0)));
    let f1 = f(t(if r.chance(0.5) { f0 * r.log(0.8, 1.25) } else { r.log(20.0, 20000.0) }));
    let d = f(m::dissonance(t(f0), t(f1)));
    ensure((-1e-6..=1.0001).contains(&d), || format!("dissonance({}, {}) = {}", f0, f1, d))?;
    near("dissonance is symmetric", f(m::dissonance(t(f1), t(f0))), d, 0.0)?;
    near("dissonance of unison", f(m::dissonance(t(f0), t(f0))), 0.0, 0.0)?;
    let fm = f(m::dissonance_max(t(f0)));
    ensure(fm > f0, || format!("dissonance_max({}) = {}", f0, fm))?;
    near("dissonance at dissonance_max", f(m::dissonance(t(f0), t(fm))), 1.0, 1e-3)?;
    let ra = |f: f64| {
        let f2 = f * f;
        12194f64.powi(2) * f2 * f2 / ((f2 + 20.6f64.powi(2)) * ((f2 + 107.7f64.powi(2)) * (f2 + 737.9f64.powi(2))).sqrt() * (f2 + 12194f64.powi(2)))
    };
    near("a_weight", f(m::a_weight(t(f0))), ra(f0) / ra(1000.0), 1e-4)?;
    let mw = f(m::m_weight(t(f0)));
    ensure(mw > 0.0 && mw < 4.3, || format!("m_weight({}) = {}", f0, mw))?;
    // Splines.
    let c: Vec<f64> = (0..5).map(|_| f(t(if r.chance(0.3) { r.int(-2, 2) as f64 } else { r.uni(-10.0, 10.0) }))).collect();
    let sp = |c: &[f64], u: f64| f(m::spline(t(c[0]), t(c[1]), t(c[2]), t(c[3]), t(u)));
    let mono = |c: &[f64], u: f64| f(m::spline_mono(t(c[0]), t(c[1]), t(c[2]), t(c[3]), t(u)));
    let hermite = |y1: f64, y2: f64, m1: f64, m2: f64, t: f64| {
        let (t2, t3) = (t * t, t * t * t);
        (2.0 * t3 - 3.0 * t2 + 1.0) * y1 + (t3 - 2.0 * t2 + t) * m1 + (3.0 * t2 - 2.0 * t3) * y2 + (t3 - t2) * m2
    };
    near("spline", sp(&c, u), hermite(c[1], c[2], (c[2] - c[0]) / 2.0, (c[3] - c[1]) / 2.0, u), 50.0 * e)?;
    near("spline at 0", sp(&c, 0.0), c[1], 0.0)?;
    near("spline at 1", sp(&c, 1.0), c[2], 50.0 * e)?;
    let (cl, ch) = (c[..4].iter().cloned().fold(f64::MAX, f64::min), c[..4].iter().cloned().fold(f64::MIN, f64::max));
    let over = (ch - cl) / 8.0 + 50.0 * e * 10.0;
    let v = sp(&c, u);
    ensure(v >= cl - over && v <= ch + over, || format!("spline({:?}, {}) = {} overshoots", &c[..4], u, v))?;
    let (ml, mh) = if c[1] < c[2] { (c[1], c[2]) } else { (c[2], c[1]) };
    let v = mono(&c, u);
    let tol = 100.0 * e * 10.0;
    ensure(v >= ml - tol && v <= mh + tol, || format!("spline_mono({:?}, {}) = {} overshoots", &c[..4], u, v))?;
    near("spline_mono at 0", mono(&c, 0.0), c[1], 0.0)?;
    near("spline_mono at 1", mono(&c, 1.0), c[2], 50.0 * e)?;
    // Monotonic from knot to knot.
    let u2 = f(t(unit01(r)));
    let (ua, ub) = if u < u2 { (u, u2) } else { (u2, u) };
    let dir = if c[2] >= c[1] { 1.0 } else { -1.0 };
    ensure((mono(&c, ub) - mono(&c, ua)) * dir >= -tol, || format!("spline_mono({:?}) is not monotonic between {} and {}", &c[..4], ua, ub))?;
    // Symmetric in value and in time.
    let neg: Vec<f64> = c.iter().map(|x| -x).collect();
    near("spline_mono negated", mono(&neg, u), -v, 100.0 * e)?;
    let rev: Vec<f64> = vec![c[3], c[2], c[1], c[0]];
    near("spline_mono reversed", mono(&rev, 1.0 - u), v, 200.0 * e)?;
    near("spline reversed", sp(&rev, 1.0 - u), sp(&c, u), 200.0 * e)?;
    // Straight lines.
    let line: Vec<f64> = (0..4).map(|i| c[0] + c[1] * 0.5 * i as f64).collect();
    let want = line[1] + (line[2] - line[1]) * u;
    near("spline of a line", sp(&line, u), want, 100.0 * e)?;
    near("spline_mono of a line", mono(&line, u), want, 100.0 * e)?;
    // First order continuous: slopes agree at the shared knot.
    let h = if e > 1e-10 { 1e-2 } else { 1e-4 };
    let left = (mono(&c, 1.0) - mono(&c, 1.0 - h)) / h;
    let right = (mono(&c[1..], h) - mono(&c[1..], 0.0)) / h;
    near("spline_mono slope at a knot", left, right, 200.0 * h + 2000.0 * e / h)?;
    // Soft functions.
    near("softsign", f(m::softsign(t(x))), x / (1.0 + x.abs()), e)?;
    near("softexp", f(m::softexp(t(x))), if x > 0.0 { x * x + x + 1.0 } else { 1.0 / (1.0 - x) }, 4.0 * e)?;
    let (sx, sy) = (f(t(r.uni(-10.0, 10.0))), f(t(r.uni(-10.0, 10.0))));
    let bias = f(t(r.uni(-10.0, 10.0)));
    let mix = f(m::softmix(t(sx), t(sy), t(bias)));
    let (lo, hi) = if sx < sy { (sx, sy) } else { (sy, sx) };
    let tol = 1e-7 + 100.0 * e;
    ensure(mix >= lo - tol && mix <= hi + tol, || format!("softmix({}, {}, {}) = {}", sx, sy, bias, mix))?;
    let mid = (sx + sy) / 2.0;
    ensure((mix - mid) * bias >= -tol * 10.0, || format!("softmix({}, {}, {}) = {} is on the wrong side of the average", sx, sy, bias, mix))?;
    near("softmix without bias", f(m::softmix(t(sx), t(sy), t(0.0))), mid, 1e-7 + 10.0 * e)?;
    near("softmix is symmetric", f(m::softmix(t(sy), t(sx), t(bias))), mix, 20.0 * e)?;
    // Eases.
    near("smooth3", f(m::smooth3(t(u))), smoothstep(1, u), 10.0 * e)?;
    near("smooth5", f(m::smooth5(t(u))), smoothstep(2, u), 50.0 * e)?;
    near("smooth7", f(m::smooth7(t(u))), smoothstep(3, u), 200.0 * e)?;
    near("smooth9", f(m::smooth9(t(u))), smoothstep(4, u), 1000.0 * e)?;
    near("uparc", f(m::uparc(t(u))), 1.0 - (1.0 - u * u).sqrt(), e.sqrt())?;
    near("downarc", f(m::downarc(t(u))), (1.0 - (1.0 - u) * (1.0 - u)).max(0.0).sqrt(), e.sqrt())?;
    near("downarc of uparc", f(m::downarc(m::uparc(t(u)))), u, 10.0 * e.sqrt())?;
    near("uparc of downarc", f(m::uparc(m::downarc(t(u)))), u, 10.0 * e.sqrt())?;
    near("sine_ease", f(m::sine_ease(t(u))), (u * std::f64::consts::FRAC_PI_2).sin(), 0.002)?;
    near("sine_ease at 0", f(m::sine_ease(t(0.0))), 0.0, 0.0)?;
    near("sine_ease at 1", f(m::sine_ease(t(1.0))), 1.0, 4.0 * e)?;
    for (name, g) in [
        ("smooth3", m::smooth3::<T> as fn(T) -> T),
        ("smooth5", m::smooth5::<T>),
        ("smooth7", m::smooth7::<T>),
        ("smooth9", m::smooth9::<T>),
        ("uparc", m::uparc::<T>),
        ("downarc", m::downarc::<T>),
        ("sine_ease", m::sine_ease::<T>),
    ] {
        let (va, vb) = (f(g(t(ua))), f(g(t(ub))));
        ensure(vb >= va - 2000.0 * e, || format!("{} is not monotonic between {} and {}", name, ua, ub))?;
        let tol = 2000.0 * e;
        ensure(va >= -tol && va <= 1.0 + tol, || format!("{}({}) = {}", name, ua, va))?;
    }
    // Waves.
    let hz = f(t(r.log(0.1, 1000.0)));
    let time = f(t(r.uni(-3.0, 3.0)));
    let ph = hz * time;
    let we = e * (1.0 + ph.abs()) * 10.0;
    near("sin_hz", f(m::sin_hz(t(hz), t(time))), (ph * std::f64::consts::TAU).sin(), we)?;
    near("cos_hz", f(m::cos_hz(t(hz), t(time))), (ph * std::f64::consts::TAU).cos(), we)?;
    let fr = ph - ph.floor();
    let tri = if fr < 0.25 { fr * 4.0 } else if fr < 0.75 { 2.0 - fr * 4.0 } else { fr * 4.0 - 4.0 };
    near("tri_hz", f(m::tri_hz(t(hz), t(time))), tri, we)?;
    let edge = we + 1e-9;
    if (fr - 0.5).abs() > edge && fr > edge && fr < 1.0 - edge {
        near("sqr_hz", f(m::sqr_hz(t(hz), t(time))), if fr < 0.5 { 1.0 } else { -1.0 }, 0.0)?;
    }
    // Conversions.
    near("to_i64", m::floor(t(x)).to_i64() as f64, x.floor(), 0.0)?;
    near("from_float", f(T::from_float(x as f32)), x as f32 as f64, 0.0)?;
    near("new", f(T::new(-17)), -17.0, 0.0)?;
    near("TAU", f(T::TAU), std::f64::consts::TAU, e)?;
    near("PI", f(T::PI), std::f64::consts::PI, e)?;
    near("SQRT_2", f(T::SQRT_2), 2f64.sqrt(), e)?;
    near("reduce_add", t(x).reduce_add() as f64, x as f32 as f64, 0.0)?;
    Ok(())
}

/// Noise functions.
fn noise_case<T: Real>(r: &mut Rng, eps: f64) -> R {
    let t = |x: f64| T::from_f64(x);
    let f = |x: T| x.to_f64();
    let seed = r.u64();
    let n = r.int(-500, 500) as f64;
    let u = f(t(r.f64()));
    let x = n + u;
    let x = f(t(x));
    let u = x - n;
    let tol = 1000.0 * eps;
    let lin = |x: f64| f(m::ease_noise(m::identity::<T>, seed, t(x)));
    let (y1, y2) = (lin(n), lin(n + 1.0));
    ensure(y1.abs() <= 1.0 && y2.abs() <= 1.0, || format!("ease_noise outside -1...1: {} {}", y1, y2))?;
    near("ease_noise interpolates", lin(x), y1 * (1.0 - u) + y2 * u, tol)?;
    let s3 = f(m::ease_noise(m::smooth3::<T>, seed, t(x)));
    let s = smoothstep(1, u);
    near("ease_noise with smooth3", s3, y1 * (1.0 - s) + y2 * s, tol)?;
    let asym = f(m::ease_noise((m::smooth9::<T>, m::identity::<T>), seed, t(x)));
    let s = if y2 >= y1 { smoothstep(4, u) } else { u };
    near("asymmetric ease_noise", asym, y1 * (1.0 - s) + y2 * s, tol * 2.0)?;
    // Spline noise: range and Lipschitz continuity.
    let sn = |x: f64| f(m::spline_noise(seed, t(x)));
    let v = sn(x);
    ensure(v.abs() <= 1.0 + tol, || format!("spline_noise({}, {}) = {}", seed, x, v))?;
    let h = f(t(x + r.uni(0.0, 0.05)));
    ensure((sn(h) - v).abs() <= 4.0 * (h - x) + tol * 2.0, || format!("spline_noise jumps between {} and {}", x, h))?;
    // The slope of spline noise does not jump, least of all where its segments meet.
    if f(t(1.0 + 1e-12)) != 1.0 {
        let k = x.floor() - m::rnd2(seed);
        let d = 1e-4;
        let right = (4.0 * sn(k + d) - 3.0 * sn(k) - sn(k + 2.0 * d)) / (2.0 * d);
        let left = (sn(k - 2.0 * d) - 4.0 * sn(k - d) + 3.0 * sn(k)) / (2.0 * d);
        if x.abs() < 1e4 {
            ensure((left - right).abs() <= 0.02, || format!("slope of spline_noise seed {} at {} is {} on the left, {} on the right", seed, k, left, right))?;
        }
    }
    // Fractal noise.
    let oct = r.int(1, 8);
    let rough = f(t(r.uni(0.05, 1.5)));
    let fr = |o: i64, ro: f64, x: f64| f(m::fractal_noise(seed, o, t(ro), t(x)));
    let fe = |o: i64, ro: f64, x: f64| f(m::fractal_ease_noise(m::smooth3::<T>, seed, o, t(ro), t(x)));
    for (name, v) in [("fractal_noise", fr(oct, rough, x)), ("fractal_ease_noise", fe(oct, rough, x))] {
        ensure(v.abs() <= 1.0 + tol, || format!("{}({}, {}, {}, {}) = {}", name, seed, oct, rough, x, v))?;
    }
    // The first octave dominates when roughness is small; octaves add with weight roughness.
    near("fractal_noise with little roughness", fr(oct, 1e-6, x), fr(1, 0.5, x), 1e-4)?;
    near("fractal_ease_noise with little roughness", fe(oct, 1e-6, x), fe(1, 0.5, x), 1e-4)?;
    let two = |ro: f64| fr(2, ro, x) * (1.0 + ro);
    let o2 = two(1.0) - fr(1, 1.0, x);
    near("fractal_noise weights octaves by roughness", two(0.5), fr(1, 0.5, x) + 0.5 * o2, tol * 4.0)?;
    let two = |ro: f64| fe(2, ro, x) * (1.0 + ro);
    let o2 = two(1.0) - fe(1, 1.0, x);
    near("fractal_ease_noise weights octaves by roughness", two(0.5), fe(1, 0.5, x) + 0.5 * o2, tol * 4.0)?;
    // Seeds matter.
    let other = f(m::spline_noise(seed ^ (1 << r.below(64)), t(x)));
    let other2 = f(m::spline_noise(seed ^ (1 << r.below(64)), t(x + 1.0)));
    ensure(other != v || other2 != sn(x + 1.0), || format!("spline_noise does not depend on bits of seed {}", seed))?;
    Ok(())
}

macro_rules! simd_case {
    ($fname:ident, $v:ty, $s:ty, $lanes:expr, $e:expr) => {
        fn $fname(r: &mut Rng) -> R {
            let e: f64 = $e;
            let a: [$s; $lanes] = core::array::from_fn(|_| real(r) as $s);
            let b: [$s; $lanes] = core::array::from_fn(|_| real(r) as $s);
            let u: [$s; $lanes] = core::array::from_fn(|_| unit01(r) as $s);
            let va = <$v>::new(a);
            let vb = <$v>::new(b);
            let vu = <$v>::new(u);
            let lane = |name: &str, got: $v, want: &dyn Fn(usize) -> f64, tol: f64| -> R {
                for k in 0..$lanes {
                    let g = got.to_array()[k] as f64;
                    near(&format!("{} of SIMD lane {} (arguments {} {} {})", name, k, a[k], b[k], u[k]), g, want(k), tol)?;
                }
                Ok(())
            };
            lane("abs", m::abs(va), &|k| a[k].abs() as f64, 0.0)?;
            lane("floor", m::floor(va), &|k| a[k].floor() as f64, 0.0)?;
            lane("ceil", m::ceil(va), &|k| a[k].ceil() as f64, 0.0)?;
            // Ties are not specified.
            lane("round", m::round(va), &|k| if (a[k] - a[k].trunc()).abs() == 0.5 { m::round(va).to_array()[k] as f64 } else { a[k].round() as f64 }, 0.0)?;
            lane("signum", m::signum(va), &|k| if a[k] < 0.0 { -1.0 } else { 1.0 }, 0.0)?;
            lane("min", m::min(va, vb), &|k| if a[k] < b[k] { a[k] } else { b[k] } as f64, 0.0)?;
            lane("max", m::max(va, vb), &|k| if a[k] < b[k] { b[k] } else { a[k] } as f64, 0.0)?;
            lane("clamp01", m::clamp01(va), &|k| m::clamp01(a[k]) as f64, 0.0)?;
            lane("clamp11", m::clamp11(va), &|k| m::clamp11(a[k]) as f64, 0.0)?;
            lane("sqrt", m::sqrt(m::abs(va)), &|k| a[k].abs().sqrt() as f64, e)?;
            lane("lerp", m::lerp(va, vb, vu), &|k| m::lerp(a[k], b[k], u[k]) as f64, e * 10.0)?;
            lane("softsign", m::softsign(va), &|k| m::softsign(a[k]) as f64, e)?;
            lane("softexp", m::softexp(va), &|k| m::softexp(a[k]) as f64, e * 4.0)?;
            lane("smooth3", m::smooth3(vu), &|k| smoothstep(1, u[k] as f64), e * 20.0)?;
            lane("smooth5", m::smooth5(vu), &|k| smoothstep(2, u[k] as f64), e * 100.0)?;
            lane("smooth7", m::smooth7(vu), &|k| smoothstep(3, u[k] as f64), e * 400.0)?;
            lane("smooth9", m::smooth9(vu), &|k| smoothstep(4, u[k] as f64), e * 2000.0)?;
            lane("sine_ease", m::sine_ease(vu), &|k| m::sine_ease(u[k]) as f64, e * 20.0)?;
            lane("spline_mono", m::spline_mono(va, vu, vb, va, vu), &|k| m::spline_mono(a[k], u[k], b[k], a[k], u[k]) as f64, e * 1000.0)?;
            lane("dissonance_max", m::dissonance_max(m::abs(va)), &|k| m::dissonance_max(a[k].abs()) as f64, e * 4.0)?;
            let c = <$v>::new(a.map(|x| if x.abs() > 100.0 { 1.0 } else { x }));
            let s: [$s; $lanes] = c.to_array();
            lane("sin", m::sin(c), &|k| (s[k] as f64).sin(), 1e-5)?;
            lane("cos", m::cos(c), &|k| (s[k] as f64).cos(), 1e-5)?;
            let d = <$v>::new(s.map(|x| if x.abs() > 20.0 { 1.0 } else { x }));
            let ds: [$s; $lanes] = d.to_array();
            lane("exp", m::exp(d), &|k| (ds[k] as f64).exp(), 1e-4)?;
            // Lane access.
            let frame = va.to_frame();
            let back = <$v>::from_frame(&frame);
            let mut one = va;
            let k = r.below($lanes);
            one.set(k, 4.5);
            for i in 0..$lanes {
                near("to_frame", frame[i] as f64, a[i] as f32 as f64, 0.0)?;
                near("from_frame", back.to_array()[i] as f64, a[i] as f32 as f64, 0.0)?;
                near("get", va.get(i) as f64, a[i] as f32 as f64, 0.0)?;
                near("set", one.get(i) as f64, if i == k { 4.5 } else { a[i] as f32 as f64 }, 0.0)?;
            }
            let sum: f64 = a.iter().map(|x| *x as f64).sum();
            let mag: f64 = a.iter().map(|x| x.abs() as f64).sum();
            near("reduce_add", va.reduce_add() as f64 / (1.0 + mag), sum / (1.0 + mag), 1e-6)?;
            Ok(())
        }
    };
}
simd_case!(simd32, f32x8, f32, 8, 2e-6);
simd_case!(simd64, f64x4, f64, 4, 1e-12);

fn ints(r: &mut Rng) -> R {
    let x = r.int(-1000, 1000);
    let y = r.int(-1000, 1000);
    ensure(m::abs(x) == x.abs(), || format!("abs({})", x))?;
    ensure(m::min(x, y) == Ord::min(x, y) && m::max(x, y) == Ord::max(x, y), || format!("min or max of {} {}", x, y))?;
    ensure(m::clamp(-10i64, 10, x) == x.clamp(-10, 10), || format!("clamp({})", x))?;
    ensure(m::floor(x) == x && m::ceil(x) == x && m::round(x) == x, || format!("rounding {}", x))?;
    ensure(m::signum(x) == x.signum(), || format!("signum({})", x))?;
    let b = r.int(0, 9);
    ensure(m::pow(b as u64, 5) == (b as u64).pow(5), || format!("pow({}, 5)", b))?;
    ensure(m::squared(x) == x * x && m::cubed(x) == x * x * x, || format!("square or cube of {}", x))?;
    let w = r.u64();
    ensure(Int::wrapping_add(w, u64::MAX) == w.wrapping_sub(1) && Int::wrapping_sub(w, u64::MAX) == w.wrapping_add(1), || "wrapping".into())?;
    ensure(Int::wrapping_mul(w, 3) == w.wrapping_add(w).wrapping_add(w), || "wrapping_mul".into())?;
    let n = r.usize(0, 10000);
    ensure(full_simd_items(n) == n / 8 && simd_items(n) == (n + 7) / 8, || format!("simd items of {}", n))?;
    Ok(())
}

/// Hash functions: permutations, ranges, distribution, avalanche.
fn hashes(rec: &mut Rec, i: usize) -> R {
    let r = &mut rec.rng.fork();
    let n = 1 << 16;
    let start = r.u64();
    let stride: u64 = match i % 5 {
        0 => 1,
        1 => 1 << r.below(47),
        2 => r.u64() | 1,
        3 => 1 << 32,
        _ => 3,
    };
    rec.ctx = format!("arguments from {} by {}", start, stride);
    let arg = |k: u64| start.wrapping_add(k.wrapping_mul(stride));
    for (name, f) in [("hash1", m::hash1 as fn(u64) -> u64), ("hash2", m::hash2)] {
        let mut seen = HashSet::with_capacity(n);
        let mut ones = [0u32; 64];
        for k in 0..n as u64 {
            let h = f(arg(k));
            if !seen.insert(h) {
                return Err(format!("{} maps two arguments to {}", name, h));
            }
            for b in 0..64 {
                ones[b] += (h >> b & 1) as u32;
            }
        }
        let sd = (n as f64 * 0.25).sqrt();
        for b in 0..64 {
            let z = (ones[b] as f64 - n as f64 / 2.0) / sd;
            ensure(z.abs() < 7.0, || format!("bit {} of {} is biased: {} of {}", b, name, ones[b], n))?;
        }
        // Flipping any bit of the argument flips about half of the bits.
        let bit = r.below(64);
        let mut flips = 0u64;
        for k in 0..1000 {
            flips += (f(arg(k)) ^ f(arg(k) ^ (1 << bit))).count_ones() as u64;
        }
        ensure((24_000..40_000).contains(&flips), || format!("argument bit {} flips {} of 64000 bits of {}", bit, flips, name))?;
    }
    for (name, f) in [
        ("rnd1", m::rnd1 as fn(u64) -> f64),
        ("rnd2", m::rnd2),
        ("hash01", |x| AttoHash::new(x).hash(x.wrapping_mul(77)).hash01()),
        ("hash11", |x| (AttoHash::new(x).hash(x.wrapping_mul(77)).hash11::<f64>() + 1.0) * 0.5),
        ("hash01 f32", |x| AttoHash::new(x).hash(5).hash01::<f32>() as f64),
        ("hash11 f32", |x| (AttoHash::new(x).hash(5).hash11::<f32>() as f64 + 1.0) * 0.5),
    ] {
        let mut bins = [0u32; 64];
        let mut prev = 0.5;
        let mut cor = 0.0;
        for k in 0..n as u64 {
            let v = f(arg(k));
            ensure((0.0..=1.0).contains(&v), || format!("{} outside its range: {}", name, v))?;
            bins[Ord::min((v * 64.0) as usize, 63)] += 1;
            cor += (v - 0.5) * (prev - 0.5);
            prev = v;
        }
        let ex = n as f64 / 64.0;
        let chi: f64 = bins.iter().map(|b| (*b as f64 - ex).powi(2) / ex).sum();
        ensure(chi < 63.0 + 8.0 * (2.0f64 * 63.0).sqrt(), || format!("{} is not uniform: chi square {} with 63 degrees of freedom", name, chi))?;
        let z = cor * 12.0 / (n as f64).sqrt();
        ensure(z.abs() < 7.0, || format!("successive values of {} are correlated: z = {}", name, z))?;
    }
    // The hasher keeps its state and order matters.
    for _ in 0..1000 {
        let (s, a, b) = (r.u64(), r.u64(), r.u64());
        ensure(AttoHash::new(s).state() == s, || "state".into())?;
        if a != b {
            ensure(AttoHash::new(s).hash(a).state() != AttoHash::new(s).hash(b).state(), || format!("AttoHash of {} and {} collide", a, b))?;
            ensure(AttoHash::new(s).hash(a).hash(b).state() != AttoHash::new(s).hash(b).hash(a).state(), || format!("AttoHash ignores the order of {} and {}", a, b))?;
        }
    }
    rec.count("hash arguments", n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// ITU-R 468 points in dB.
fn weights() -> R {
    for (f, db) in [(31.5, -29.9), (63.0, -23.9), (100.0, -19.8), (200.0, -13.8), (400.0, -7.8), (800.0, -1.9), (1000.0, 0.0), (2000.0, 5.6), (3150.0, 9.0), (4000.0, 10.5), (5000.0, 11.7), (6300.0, 12.2), (7100.0, 12.0), (8000.0, 11.4), (9000.0, 10.1), (10000.0, 8.1), (12500.0, 0.0), (14000.0, -5.3), (16000.0, -11.7), (20000.0, -22.2)] {
        near(&format!("m_weight({}) dB in f64", f), 20.0 * m::m_weight(f as f64).log10(), db, 0.1)?;
        near(&format!("m_weight({}) dB in f32", f), 20.0 * (m::m_weight(f as f32) as f64).log10(), db, 0.1)?;
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P23", "batches of random arguments over all helpers, hash argument progressions");
    let n = c.scale(20, 600);
    c.par("f32", 4000 * n, |i, rec| {
        let r = &mut rec.rng.fork();
        for _ in 0..20 {
            scalar::<f32>(r, 4e-7)?;
        }
        rec.count("argument tuples", 20);
        rec.distinct(&format!("f32 {}", i));
        Ok(())
    });
    c.par("f64", 4000 * n, |i, rec| {
        let r = &mut rec.rng.fork();
        for _ in 0..20 {
            scalar::<f64>(r, 1e-14)?;
        }
        rec.count("argument tuples", 20);
        rec.distinct(&format!("f64 {}", i));
        Ok(())
    });
    c.par("noise", 3000 * n, |i, rec| {
        let r = &mut rec.rng.fork();
        for _ in 0..5 {
            noise_case::<f64>(r, 1e-12)?;
            noise_case::<f32>(r, 1e-6)?;
        }
        rec.distinct(&format!("noise {}", i));
        Ok(())
    });
    c.par("simd", 6000 * n, |i, rec| {
        let r = &mut rec.rng.fork();
        for _ in 0..5 {
            simd32(r)?;
            simd64(r)?;
            ints(r)?;
        }
        rec.distinct(&format!("simd {}", i));
        Ok(())
    });
    c.seq("weights", 1, |_, _| weights());
    c.par("hash", 60 * n, |i, rec| hashes(rec, i));
    c.finish();
}
