//! P20: pseudorandom sources are deterministic functions of structure and seed, well distributed and decorrelated.
use fundsp::hacker::*;
use fundsp::noise::MlsState;
use std::collections::HashSet;
use vh::{partition, rate, render, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;

fn any_seed(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(10) as u64,
        // The counter wraps around during the run.
        1 => u32::MAX as u64 - r.below(3000) as u64,
        2 => u64::MAX - r.below(10) as u64,
        3 => 1u64 << r.below(64),
        _ => r.u64(),
    }
}

fn source(r: &mut Rng, seed: Option<u64>) -> (String, U, f64) {
    let k = r.below(6);
    macro_rules! s {
        ($name:expr, $u:expr, $max:expr) => {
            match seed {
                Some(x) => (format!("{}.seed({})", $name, x), Box::new($u.seed(x)) as U, $max),
                None => ($name.to_string(), Box::new($u) as U, $max),
            }
        };
    }
    match k {
        0 => s!("noise()", noise(), 1.0),
        1 => s!("white()", white(), 1.0),
        2 => s!("mls()", mls(), 1.0),
        3 => {
            let n = r.usize(16, 31) as u64;
            s!(format!("mls_bits({})", n), mls_bits(n), 1.0)
        }
        4 => s!("pink()", pink(), 4.0),
        _ => s!("brown()", brown(), 20.0),
    }
}

/// Structures with several independent sources, one per output.
fn structure(r: &mut Rng) -> (String, Box<dyn Fn() -> U>) {
    macro_rules! s {
        ($u:expr) => {
            (stringify!($u).to_string(), Box::new(move || Box::new($u) as U))
        };
    }
    match r.below(34) {
        0 => s!(noise() | noise()),
        1 => s!(noise() | noise() | noise() | noise()),
        2 => s!(white() | (noise() | white()) | noise()),
        3 => s!((noise() | noise()) | (noise() | noise())),
        4 => s!(stacki::<U8, _, _>(|_| noise())),
        5 => s!(stackf::<U5, _, _>(|_| white())),
        6 => s!((noise() >> pass()) | (noise() >> pass())),
        7 => s!((noise() | noise()) >> (pass() | pass())),
        8 => s!((noise() * 0.5) | (noise() * 0.5) | (noise() + 0.0)),
        9 => s!(oversample(noise()) | oversample(noise())),
        10 => s!(unit::<U0, U1>(Box::new(noise())) | unit::<U0, U1>(Box::new(noise()))),
        11 => s!((noise() ^ noise()) | noise()),
        12 => s!(mls() | mls() | mls()),
        13 => s!(mls_bits(31) | mls_bits(30) | noise()),
        14 => s!(branchi::<U4, _, _>(|_| sink() | noise())),
        15 => s!((noise() & zero()) | (zero() & noise())),
        16 => s!(-noise() | noise()),
        17 => s!((noise() - zero()) | (noise() - zero()) | noise()),
        18 => s!(pinkless(stacki::<U3, _, _>(|_| noise()) | noise())),
        // Sources that meet in one output: they must not cancel or add up, see `power`.
        19 => s!((noise() - noise()) | (noise() + noise()) | (noise() & noise())),
        20 => s!((pipei::<U3, _, _>(|_| pass() + noise()) ) | noise()),
        21 => s!(busi::<U4, _, _>(|_| noise()) | sumi::<U3, _, _>(|_| noise()) | noise()),
        22 => s!(!(noise() | noise()) | (pass() & (sink() | noise()))),
        23 => s!((noise() * noise()) | (noise() * noise())),
        24 => s!(feedback(pass() * 0.0 + noise()) | (noise() >> (pass() + noise()))),
        25 => s!((constant(1.0) >> resample(noise())) | (constant(1.0) >> resample(noise()))),
        26 => s!(update(noise(), 0.01, |_, _, _| {}) | update(noise(), 0.01, |_, _, _| {})),
        27 => s!((noise() >> allnest_c(0.2, pass() + noise() * 0.1)) | noise()),
        28 => s!(feedback2(pass() * 0.0 + noise(), pass()) | noise()),
        29 | 30 => {
            let n = r.usize(2, 9);
            let deep = r.chance(0.5);
            (
                format!("net of {} noise nodes, nested {}", n, deep),
                Box::new(move || {
                    let mut net = Net::new(0, n);
                    for i in 0..n {
                        let id = if deep && i % 2 == 1 { net.push(Box::new(Net::wrap(Box::new(noise())))) } else { net.push(Box::new(noise())) };
                        net.connect_output(id, 0, i);
                    }
                    Box::new(net) as U
                }),
            )
        }
        _ => {
            let n = r.usize(2, 6);
            (
                format!("stack of {} wrapped nets", n),
                Box::new(move || {
                    let mut net = Net::wrap(Box::new(noise()));
                    for _ in 1..n {
                        net = net | Net::wrap(Box::new(noise()));
                    }
                    Box::new(net) as U
                }),
            )
        }
    }
}

fn pinkless<X: AudioNode>(x: An<X>) -> An<X> {
    x
}

/// Correlation coefficient.
fn corr(a: &[f32], b: &[f32]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (a.iter().map(|x| *x as f64).sum::<f64>() / n, b.iter().map(|x| *x as f64).sum::<f64>() / n);
    let (mut ab, mut aa, mut bb) = (0.0, 0.0, 0.0);
    for i in 0..a.len() {
        let (x, y) = (a[i] as f64 - ma, b[i] as f64 - mb);
        ab += x * y;
        aa += x * x;
        bb += y * y;
    }
    ab / (aa * bb).sqrt().max(1e-30)
}

/// Equal graphs sound equal, also in a larger graph; different places sound different.
fn case_structure(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let (name, make) = structure(r);
    rec.ctx = name.clone();
    let n = 4000;
    let (mut a, mut b) = (make(), make());
    if r.chance(0.3) {
        let sr = rate(r);
        a.set_sample_rate(sr);
        b.set_sample_rate(sr);
    }
    let x = vec![vec![0.0; n]; a.inputs()];
    let (s1, s2) = (partition(r, n), partition(r, n));
    let (ya, yb) = (render(a.as_mut(), &x, &s1), render(b.as_mut(), &x, &s2));
    let exact = !name.contains("oversample");
    // Maximum length sequences with few taps start slowly from a sparse state.
    let limit = if name.contains("mls") { 0.9 } else { 0.11 };
    for c in 0..ya.len() {
        for i in 0..n {
            if (ya[c][i] - yb[c][i]).abs() > if exact { 0.0 } else { 1e-5 } {
                return Err(format!("output {} sample {} of two equal graphs: {} and {}", c, i, ya[c][i], yb[c][i]));
            }
        }
    }
    // Independent unit sources in one output add their powers.
    let power = |c: usize| ya[c].iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / n as f64 * 3.0;
    let expect: &[f64] = if name.starts_with("(noise() - noise()) | (") {
        &[2.0, 2.0, 2.0]
    } else if name.starts_with("(pipei") {
        &[3.0, 1.0]
    } else if name.starts_with("busi") {
        &[4.0, 3.0, 1.0]
    } else {
        &[]
    };
    for (c, e) in expect.iter().enumerate() {
        if (power(c) - e).abs() > 0.25 * e {
            return Err(format!("power of output {} is {} times that of one source, expected {}", c, power(c), e));
        }
    }
    for c in 0..ya.len() {
        for d in 0..c {
            let v = corr(&ya[c], &yb[d]);
            if v.abs() > limit {
                return Err(format!("outputs {} and {} correlate by {}", c, d, v));
            }
        }
    }
    // Two copies combined sound different.
    let both: U = Box::new(Net::wrap(make()) | Net::wrap(make()));
    let mut both = both;
    if both.inputs() == 0 {
        let y = render(both.as_mut(), &vec![], &s1);
        let k = y.len() / 2;
        for c in 0..k {
            let v = corr(&y[c], &y[c + k]);
            if v.abs() > limit && exact {
                return Err(format!("output {} of two combined copies correlates by {}", c, v));
            }
        }
    }
    // A given hash decides the stream; different hashes give different streams.
    let (h1, h2) = (r.u64(), r.u64());
    a.ping(false, AttoHash::new(h1));
    b.ping(false, AttoHash::new(h1));
    a.reset();
    b.reset();
    let (ya, yb) = (render(a.as_mut(), &x, &s1), render(b.as_mut(), &x, &s1));
    if ya != yb {
        return Err(format!("equal graphs with hash {} differ", h1));
    }
    b.ping(false, AttoHash::new(h2));
    b.reset();
    let yb = render(b.as_mut(), &x, &s1);
    for c in 0..ya.len() {
        let v = corr(&ya[c], &yb[c]);
        if v.abs() > limit {
            return Err(format!("output {} with hashes {} and {} correlates by {}", c, h1, h2, v));
        }
    }
    // Probing changes nothing.
    b.reset();
    b.ping(true, AttoHash::new(h1));
    if render(b.as_mut(), &x, &s2).iter().zip(&yb).any(|(p, q)| p.iter().zip(q).any(|(p, q)| (p - q).abs() > if exact { 0.0 } else { 1e-5 })) {
        return Err("a probing ping changes the stream".into());
    }
    rec.count("samples", (5 * n * ya.len()) as u64);
    rec.distinct(&format!("{} {}", name, h1));
    Ok(())
}

/// Every place within every container receives its own hash, the same one each time.
fn case_places(rec: &mut Rec, i: usize) -> Result<(), String> {
    use vh::probe::{Ctor, Ev};
    let r = &mut rec.rng.fork();
    let q = r.fork();
    let depth = 1 + i % 3;
    let (mut c, mut d) = (Ctor::new(), Ctor::new());
    let mut u = c.node(&mut q.clone(), depth, 1.0);
    let mut v = d.node(&mut q.clone(), depth, 1.0);
    rec.ctx = c.desc.clone();
    let hash = |c: &Ctor| -> Vec<Option<u64>> {
        c.parts
            .iter()
            .map(|p| {
                let last = p.log.take().iter().rev().find_map(|e| if let Ev::Hash(h) = e { Some(*h) } else { None });
                if p.shape || p.event { None } else { last }
            })
            .collect()
    };
    // Hashes received while the graph was built by operators. Boxed units receive theirs with the whole.
    let built = (hash(&c), hash(&d));
    if built.0 != built.1 {
        return Err("equal graphs give their parts different hashes when built".into());
    }
    let h = AttoHash::new(r.u64());
    u.ping(false, h.clone());
    v.ping(false, h);
    let (a, b) = (hash(&c), hash(&d));
    if a != b {
        return Err("equal graphs give their parts different hashes".into());
    }
    let mut seen = std::collections::HashMap::new();
    for (k, x) in a.iter().enumerate() {
        let p = &c.parts[k];
        if p.shape || p.event {
            continue;
        }
        match x {
            None => return Err(format!("{} receives no hash", p.desc)),
            Some(x) => {
                if let Some(j) = seen.insert(*x, k) {
                    return Err(format!("{} and {} receive the same hash", p.desc, c.parts[j as usize].desc));
                }
            }
        }
    }
    rec.count("places", a.len() as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// A seed overrides place.
fn case_seed(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let seed = any_seed(r);
    let mut q = r.fork();
    let mut q2 = q.clone();
    let mut q3 = q.clone();
    let (name, mut a, max) = source(&mut q, Some(seed));
    let (_, b, _) = source(&mut q2.clone(), Some(seed));
    let other = loop {
        let s = any_seed(r);
        if (s ^ (s >> 32)) as u32 != (seed ^ (seed >> 32)) as u32 {
            break s;
        }
    };
    let (_, mut c, _) = source(&mut q2, Some(other));
    rec.ctx = name.clone();
    let n = 2000;
    let ya = render(a.as_mut(), &vec![], &partition(r, n));
    // The same source within a graph.
    let mut g: U = match r.below(3) {
        0 => {
            let mut net = Net::new(0, 2);
            let x = net.push(Box::new(noise()));
            let y = net.push(b);
            net.connect_output(x, 0, 0);
            net.connect_output(y, 0, 1);
            Box::new(net)
        }
        1 => Box::new(noise() | unit::<U0, U1>(b)),
        _ => Box::new(zero() | (unit::<U0, U1>(b) >> pass())),
    };
    g.reset();
    let yg = render(g.as_mut(), &vec![], &partition(r, n));
    let tol = if name.starts_with("pink") || name.starts_with("brown") { 1e-5 } else { 0.0 };
    for i in 0..n {
        if (ya[0][i] - yg[1][i]).abs() > tol {
            return Err(format!("sample {} is {} alone and {} in a graph", i, ya[0][i], yg[1][i]));
        }
        if !(ya[0][i].abs() as f64 <= max) {
            return Err(format!("sample {} is {}", i, ya[0][i]));
        }
    }
    let yc = render(c.as_mut(), &vec![], &partition(r, n));
    let v = corr(&ya[0], &yc[0]);
    // Short maximum length sequences can coincide.
    if v.abs() > 0.999 && !name.contains("mls") || (name.contains("noise") || name.contains("white")) && v.abs() > 0.15 {
        return Err(format!("seeds {} and {} correlate by {}", seed, other, v));
    }
    // The seed setting takes effect at reset and stays.
    let (_, mut d, _) = source(&mut q3, None);
    d.set(if name.starts_with("pink") || name.starts_with("brown") { Setting::seed(seed).left() } else { Setting::seed(seed) });
    for _ in 0..2 {
        d.reset();
        let yd = render(d.as_mut(), &vec![], &partition(r, n));
        for i in 0..n {
            if (ya[0][i] - yd[0][i]).abs() > tol {
                return Err(format!("sample {} is {} when built with the seed and {} when set", i, ya[0][i], yd[0][i]));
            }
        }
    }
    rec.count("samples", 3 * n as u64);
    rec.distinct(&name);
    Ok(())
}

/// White noise: uniform, independent, without repetition.
fn case_white(rec: &mut Rec, n: usize) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let seed = any_seed(r);
    let mut u = noise().seed(seed);
    rec.ctx = format!("noise().seed({})", seed);
    let st = partition(r, n);
    let y = &render(&mut u, &vec![], &st)[0];
    let nf = n as f64;
    let mean = y.iter().map(|x| *x as f64).sum::<f64>() / nf;
    let var = y.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / nf;
    let z = |v: f64, sd: f64, what: &str| -> Result<(), String> {
        if v.abs() > 6.0 * sd {
            Err(format!("{} is off by {} with standard deviation {}", what, v, sd))
        } else {
            Ok(())
        }
    };
    z(mean, (1.0 / 3.0 / nf).sqrt(), "mean")?;
    z(var - 1.0 / 3.0, (4.0 / 45.0 / nf).sqrt(), "variance")?;
    let mut bins = [0u32; 64];
    for (i, x) in y.iter().enumerate() {
        if !(-1.0..=1.0).contains(x) {
            return Err(format!("sample {} is {}", i, x));
        }
        bins[Ord::min(63, ((x + 1.0) * 32.0) as usize)] += 1;
    }
    let e = nf / 64.0;
    let chi: f64 = bins.iter().map(|b| (*b as f64 - e).powi(2) / e).sum();
    z(chi - 63.0, (2.0f64 * 63.0).sqrt() * 1.3, "histogram")?;
    for lag in (1..=16).chain([31, 32, 63, 64, 65, 128, 256, 1000]) {
        if lag * 4 < n {
            z(corr(&y[lag..], &y[..n - lag]), 1.0 / (nf - lag as f64).sqrt(), &format!("autocorrelation at {}", lag))?;
        }
    }
    // No repetition: pairs of samples are distinct.
    let mut seen = HashSet::new();
    let mut rep = 0;
    for w in y.windows(3) {
        if !seen.insert((w[0].to_bits(), w[1].to_bits(), w[2].to_bits())) {
            rep += 1;
        }
    }
    if rep > 0 {
        return Err(format!("{} triples of samples repeat in {}", rep, n));
    }
    rec.count("samples", n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// All nonzero states of a maximum length sequence once per period.
fn mls_period(n: u32) -> Result<u64, String> {
    let len = (1u64 << n) - 1;
    let mut m = MlsState::new(n);
    if m.length() as u64 != len {
        return Err(format!("length is {}", m.length()));
    }
    // A window of n values is a state.
    let mut w = 0u64;
    let mut head = vec![];
    for _ in 0..n {
        w = ((w << 1) | m.value() as u64) & len;
        head.push(m.value());
        m = m.next();
    }
    let first = w;
    let mut ones = 0u64;
    // The successor is a function of the window, so if the first one returns only now, all are visited.
    for i in 0..len {
        if w == 0 {
            return Err(format!("zero state at step {}", i));
        }
        if i > 0 && w == first {
            return Err(format!("state {} repeats at step {} of {}", w, i, len));
        }
        ones += m.value() as u64;
        w = ((w << 1) | m.value() as u64) & len;
        m = m.next();
    }
    if w != first {
        return Err("the first state does not return after a period".into());
    }
    if ones != 1 << (n - 1) {
        return Err(format!("{} ones in a period", ones));
    }
    Ok(len)
}

/// The unit plays the sequence from the state given by the seed.
fn case_mls(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let n = r.usize(1, 31) as u32;
    let seed = any_seed(r);
    rec.ctx = format!("mls_bits({}).seed({})", n, seed);
    let mut u = mls_bits(n as u64).seed(seed);
    let k = 700 + n as usize;
    let y = &render(&mut u, &vec![], &partition(r, k))[0];
    if let Some(i) = y.iter().position(|x| *x != 1.0 && *x != -1.0) {
        return Err(format!("sample {} is {}", i, y[i]));
    }
    // Every window is nonzero, and its successor is that of the sequence.
    let bit = |i: usize| (y[i] > 0.0) as u64;
    let len = (1u64 << n) - 1;
    let mut w = 0u64;
    for i in 0..k {
        w = ((w << 1) | bit(i)) & len;
        if i + 1 >= n as usize && w == 0 {
            return Err(format!("zero state at sample {}", i));
        }
    }
    // A short sequence repeats with its period.
    if n <= 9 {
        for i in len as usize..k {
            if y[i] != y[i - len as usize] {
                return Err(format!("sample {} differs from one period of {} before", i, len));
            }
        }
    }
    // The same as the state machine from the same window.
    let s = MlsState::new_with_seed(n, (seed ^ (seed >> 32)) as u32);
    let mut s = s;
    for i in 0..k {
        if s.value() as u64 != bit(i) {
            return Err(format!("sample {} differs from the sequence of the seed", i));
        }
        s = s.next();
    }
    rec.count("samples", k as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Sample and hold.
fn case_hold(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let var = *r.pick(&[0.0f32, 1.0, 0.3, 0.7]);
    let f = r.log(sr / 400.0, sr / 3.0) as f32;
    let n = r.usize(100, 5000);
    let hz = r.chance(0.5);
    let mut u: U = if hz { Box::new(hold_hz(f, var)) } else { Box::new(hold(var)) };
    u.set_sample_rate(sr);
    rec.ctx = format!("hold variability {} at {} Hz, rate {}", var, f, sr);
    let x: Vec<f32> = (0..n).map(|i| i as f32).collect();
    let mut input = vec![x];
    if !hz {
        input.push(vec![f; n]);
    }
    let mut prev: Option<Vec<f32>> = None;
    for round in 0..2 {
        let y = render(u.as_mut(), &input, &partition(r, n));
        let y = &y[0];
        let p = sr / f as f64;
        let mut last = 0usize;
        let mut t = vec![];
        for i in 0..n {
            let v = y[i] as usize;
            if v != i && (i == 0 || y[i] != y[i - 1]) {
                return Err(format!("round {} sample {} holds {}", round, i, y[i]));
            }
            if v == i && i > 0 {
                let d = (i - last) as f64;
                let (lo, hi) = (p * (1.0 - var as f64) - 1.01, p * (1.0 + var as f64) + 1.01);
                if d < lo || d > hi {
                    return Err(format!("round {} held {} samples, expected {}...{}", round, d, lo, hi));
                }
                t.push(d);
                last = i;
            }
        }
        // Average: the delay of sampling to the next sample is uniform when hold times vary.
        if t.len() > 30 {
            let m = t.iter().sum::<f64>() / t.len() as f64;
            let sd = (var as f64 * p / 3f64.sqrt() + 1.0) / (t.len() as f64).sqrt();
            if m < p - 6.0 * sd - 0.01 || m > p + 1.0 + 6.0 * sd {
                return Err(format!("round {} average hold is {} samples, expected {}", round, m, p));
            }
            if var > 0.2 && p > 20.0 {
                let s = (t.iter().map(|x| (x - m).powi(2)).sum::<f64>() / t.len() as f64).sqrt();
                let want = var as f64 * p / 3f64.sqrt();
                if s < 0.5 * want || s > 1.5 * want + 1.0 {
                    return Err(format!("round {} hold times deviate by {}, expected {}", round, s, want));
                }
            }
        }
        if n as f64 > p * 2.5 + 3.0 && t.is_empty() {
            return Err(format!("round {} never samples again", round));
        }
        if let Some(q) = &prev {
            if q != y {
                return Err("different after reset".into());
            }
        }
        prev = Some(y.clone());
        u.reset();
    }
    rec.count("samples", 2 * n as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Colored noise has its slope.
fn case_color(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let kind = r.below(3);
    let seed = r.u64();
    let mut u: U = match kind {
        0 => Box::new(noise().seed(seed)),
        1 => Box::new(pink().seed(seed)),
        _ => Box::new(brown().seed(seed)),
    };
    rec.ctx = format!("{} seed {}", ["white", "pink", "brown"][kind], seed);
    let n = 32768;
    let warm = 20000;
    let y = &render(u.as_mut(), &vec![], &partition(r, n + warm))[0];
    let mut d: Vec<f32> = (0..n).map(|i| y[warm + i] * (0.5 - 0.5 * (std::f32::consts::TAU * i as f32 / n as f32).cos())).collect();
    let s = fundsp::fft::real_fft(&mut d);
    // Power per bin in octave bands.
    let mut level = vec![];
    let mut b = 64;
    while b * 2 <= 12288 {
        let p: f64 = (b..b * 2).map(|k| s[k].norm_sqr() as f64).sum::<f64>() / b as f64;
        level.push(10.0 * p.log10());
        b *= 2;
    }
    let slope = [0.0, -3.01, -6.02][kind];
    for i in 1..level.len() {
        let d = level[i] - level[i - 1];
        // The lowest octave has 64 bins.
        let tol = 6.0 * 10.0 / 2.303 * 2.0 * (1.0 / (64u64 << (i - 1)) as f64).sqrt() * 0.55 + 0.9;
        let tol = if kind == 2 && i + 1 == level.len() { tol + 1.0 } else { tol };
        if (d - slope).abs() > tol {
            return Err(format!("level changes by {} dB from band {} to the next, expected {} within {}", d, i - 1, slope, tol));
        }
    }
    rec.count("samples", (n + warm) as u64);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Random initial phases of oscillators in different places differ, and are the same for equal graphs.
fn case_phases(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let k = r.below(18);
    let n = r.usize(2, 16);
    let mk = |k: usize| -> U {
        match k {
            0 => Box::new(constant(0.0) >> ramp()),
            1 => Box::new(constant(3000.0) >> sine()),
            2 => Box::new(constant(0.0) >> saw()),
            3 => Box::new(constant(0.0) >> poly_saw()),
            4 => Box::new(constant(100.0) >> triangle()),
            5 => Box::new(pluck(500.0, 0.9, 0.1)),
            6 => Box::new(dc((3000.0, 0.3)) >> pulse()),
            7 => Box::new(constant(3000.0) >> poly_square()),
            8 => Box::new(dc((3000.0, 0.3)) >> poly_pulse()),
            9 => Box::new(constant(3000.0) >> square()),
            10 => Box::new(constant(3000.0) >> organ()),
            11 => Box::new(constant(3000.0) >> soft_saw()),
            12 => Box::new(constant(3000.0) >> hammond()),
            13 => Box::new(constant(3000.0) >> dsf_saw_r(0.5)),
            14 => Box::new(constant(3000.0) >> dsf_square_r(0.5)),
            15 => Box::new(constant(100.0) >> lorenz()),
            17 => {
                let t: Vec<f32> = (0..256).map(|i| (i as f32 * 0.024).sin()).collect();
                let table = std::sync::Arc::new(fundsp::shared::AtomicTable::new(&t));
                let mut s = fundsp::shared::AtomicSynth::<f32>::new(table);
                s.set_interpolation(fundsp::shared::Interpolation::Cubic);
                Box::new(constant(300.0) >> An(s))
            }
            _ => Box::new(constant(100.0) >> rossler()),
        }
    };
    let build = || -> Net {
        let mut net = Net::new(if k == 5 { n } else { 0 }, n);
        for i in 0..n {
            let id = net.push(mk(k));
            if k == 5 {
                net.connect_input(i, id, 0);
            }
            net.connect_output(id, 0, i);
        }
        net
    };
    rec.ctx = format!("{} oscillators of kind {}", n, k);
    let (mut a, mut b) = (build(), build());
    let hash = r.u64();
    if r.chance(0.7) {
        a.ping(false, AttoHash::new(hash));
        b.ping(false, AttoHash::new(hash));
    }
    let x = vec![vec![0.0; 20]; a.inputs()];
    let ya = render(&mut a, &x, &partition(r, 20));
    let yb = render(&mut b, &x, &partition(r, 20));
    for c in 0..n {
        for i in 0..20 {
            if (ya[c][i] - yb[c][i]).abs() > if k < 6 { 1e-5 } else { 2e-2 } {
                return Err(format!("output {} sample {} of equal nets: {} and {}", c, i, ya[c][i], yb[c][i]));
            }
        }
        for d in 0..c {
            if ya[c][0] == ya[d][0] && ya[c][7] == ya[d][7] && (k < 6 || ya[c] == ya[d]) {
                return Err(format!("outputs {} and {} have the same phase: {}", c, d, ya[c][0]));
            }
        }
    }
    // Phases are uniform, on the whole.
    if k == 0 {
        for c in 0..n {
            rec.count(&format!("phase quarter {}", (ya[c][0] * 4.0) as usize), 1);
        }
    }
    rec.distinct(&format!("{} {}", rec.ctx, hash));
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P20", "distinct seeds and structures of pseudorandom sources");
    let n = c.scale(8, 100);
    c.par("structure", 400 * n, |_, rec| case_structure(rec));
    c.par("places", 3000 * n, |i, rec| case_places(rec, i));
    c.par("seed", 1000 * n, |_, rec| case_seed(rec));
    c.par("white", 60 * n, |_, rec| case_white(rec, 1 << 16));
    c.par("long white", 1 * n, |_, rec| case_white(rec, 1 << 20));
    c.par("period", 31, |i, rec| {
        let i = 30 - i;
        rec.ctx = format!("{} bits", i + 1);
        let l = mls_period(i as u32 + 1)?;
        rec.count("sequence states", l);
        rec.distinct(&rec.ctx.clone());
        Ok(())
    });
    c.par("mls", 1000 * n, |_, rec| case_mls(rec));
    c.par("hold", 500 * n, |_, rec| case_hold(rec));
    c.par("color", 100 * n, |_, rec| case_color(rec));
    c.par("phases", 600 * n, |_, rec| case_phases(rec));
    c.finish();
}
