//! P14: latency() is the pre-delay of lookahead processing, it composes over graphs, and latency
//! compensated rendering removes exactly it.
use fundsp::hacker32::*;
use vh::dunit::*;
use vh::{audio, blocks, compare, rate, render, Chans, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;
type Lat = Vec<Option<f64>>;

/// Model of a graph.
enum T {
    /// Unit, whether each output depends on all inputs (else channelwise), latency.
    Leaf(U, bool, f64, usize, usize),
    /// Generator.
    Gen(U, f64),
    /// Constant.
    Const(U),
    Pipe(Box<T>, Box<T>),
    Stack(Box<T>, Box<T>),
    Branch(Box<T>, Box<T>),
    Bus(Box<T>, Box<T>),
    Sum(Box<T>, Box<T>),
    Product(Box<T>, Box<T>),
    Thru(Box<T>),
    Neg(Box<T>),
    Scale(Box<T>, f32),
    Add(Box<T>, f32),
}

fn least(a: Option<f64>, b: Option<f64>) -> Option<f64> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (Some(a), None) => Some(a),
        (None, b) => b,
    }
}

impl T {
    fn ins(&self) -> usize {
        match self {
            T::Leaf(_, _, _, i, _) => *i,
            T::Gen(..) | T::Const(_) => 0,
            T::Pipe(a, _) | T::Branch(a, _) | T::Bus(a, _) | T::Thru(a) | T::Neg(a) | T::Scale(a, _) | T::Add(a, _) => a.ins(),
            T::Stack(a, b) | T::Sum(a, b) | T::Product(a, b) => a.ins() + b.ins(),
        }
    }
    fn outs(&self) -> usize {
        match self {
            T::Leaf(_, _, _, _, o) => *o,
            T::Gen(u, _) | T::Const(u) => u.outputs(),
            T::Pipe(_, b) => b.outs(),
            T::Branch(a, b) | T::Stack(a, b) => a.outs() + b.outs(),
            T::Bus(a, _) | T::Sum(a, _) | T::Product(a, _) | T::Neg(a) | T::Scale(a, _) | T::Add(a, _) => a.outs(),
            T::Thru(a) => a.ins(),
        }
    }
    fn lat(&self, x: &[Option<f64>]) -> Lat {
        match self {
            T::Leaf(_, all, l, i, o) => {
                assert_eq!(x.len(), *i);
                (0..*o)
                    .map(|c| {
                        let s = if *all { x.iter().fold(None, |a, b| least(a, *b)) } else { x[c % *i] };
                        s.map(|s| s + l)
                    })
                    .collect()
            }
            T::Gen(u, l) => vec![Some(*l); u.outputs()],
            T::Const(u) => vec![None; u.outputs()],
            T::Pipe(a, b) => b.lat(&a.lat(x)),
            T::Stack(a, b) => {
                let mut y = a.lat(&x[..a.ins()]);
                y.extend(b.lat(&x[a.ins()..]));
                y
            }
            T::Branch(a, b) => {
                let mut y = a.lat(x);
                y.extend(b.lat(x));
                y
            }
            T::Bus(a, b) => a.lat(x).into_iter().zip(b.lat(x)).map(|(a, b)| least(a, b)).collect(),
            T::Sum(a, b) | T::Product(a, b) => {
                a.lat(&x[..a.ins()]).into_iter().zip(b.lat(&x[a.ins()..])).map(|(a, b)| least(a, b)).collect()
            }
            T::Thru(a) => {
                let mut y = a.lat(x);
                y.truncate(x.len());
                for c in y.len()..x.len() {
                    y.push(x[c]);
                }
                y
            }
            T::Neg(a) | T::Scale(a, _) | T::Add(a, _) => a.lat(x),
        }
    }
    fn desc(&self) -> String {
        match self {
            T::Leaf(_, _, l, i, o) => format!("leaf{}x{}@{}", i, o, l),
            T::Gen(_, l) => format!("gen@{}", l),
            T::Const(_) => "const".into(),
            T::Pipe(a, b) => format!("({}>>{})", a.desc(), b.desc()),
            T::Stack(a, b) => format!("({}|{})", a.desc(), b.desc()),
            T::Branch(a, b) => format!("({}^{})", a.desc(), b.desc()),
            T::Bus(a, b) => format!("({}&{})", a.desc(), b.desc()),
            T::Sum(a, b) => format!("({}+{})", a.desc(), b.desc()),
            T::Product(a, b) => format!("({}*{})", a.desc(), b.desc()),
            T::Thru(a) => format!("!{}", a.desc()),
            T::Neg(a) => format!("-{}", a.desc()),
            T::Scale(a, _) => format!("{}*k", a.desc()),
            T::Add(a, _) => format!("{}+k", a.desc()),
        }
    }
    fn net(self) -> Net {
        match self {
            T::Leaf(u, ..) | T::Gen(u, _) | T::Const(u) => Net::wrap(u),
            T::Pipe(a, b) => a.net() >> b.net(),
            T::Stack(a, b) => a.net() | b.net(),
            T::Branch(a, b) => a.net() ^ b.net(),
            T::Bus(a, b) => a.net() & b.net(),
            T::Sum(a, b) => a.net() + b.net(),
            T::Product(a, b) => a.net() * b.net(),
            T::Thru(a) => !a.net(),
            T::Neg(a) => -a.net(),
            T::Scale(a, k) => a.net() * k,
            T::Add(a, k) => a.net() + k,
        }
    }
}

fn look(sr: f64, t: f32) -> f64 {
    f64::max(1.0, (sr * t as f64).round())
}

/// Leaf with `i` inputs and `o` outputs. With `plain`, units without lookahead respond at once.
fn leaf(r: &mut Rng, i: usize, o: usize, sr: f64, plain: bool) -> T {
    let t = r.lf(0.0003, 0.006);
    if i == 1 && o == 1 {
        let (u, l): (U, f64) = match r.below(if plain { 9 } else { 15 }) {
            0 | 1 | 2 | 3 => (Box::new(limiter(t, 0.1)), look(sr, t)),
            4 => (Box::new(pass()), 0.0),
            5 => (Box::new(lowpass_hz(0.2 * sr as f32, 1.0)), 0.0),
            6 => (Box::new(shape(Tanh(1.0))), 0.0),
            7 => (Box::new(mul(0.7)), 0.0),
            8 => (Box::new(fir((0.2, 0.5))), 0.0),
            9 => (Box::new(tick()), 0.0),
            10 => (Box::new(delay(0.002)), 0.0),
            11 => (Box::new(declick()), 0.0),
            12 => (Box::new(dcblock()), 0.0),
            13 => {
                let w = *r.pick(&[32usize, 64, 128, 1024]);
                (
                    Box::new(resynth::<U1, U1, _>(w, |f| {
                        for i in 0..f.bins() {
                            f.set(0, i, f.at(0, i));
                        }
                    })),
                    w as f64,
                )
            }
            _ => (Box::new(oversample(shape(Tanh(1.0)))), 0.0),
        };
        return T::Leaf(u, false, l, 1, 1);
    }
    if i == 2 && o == 2 && r.chance(0.5) {
        return if r.chance(0.7) {
            T::Leaf(Box::new(limiter_stereo(t, 0.1)), false, look(sr, t), 2, 2)
        } else {
            let w = 64;
            let u: U = Box::new(resynth::<U2, U2, _>(w, |f| {
                for i in 0..f.bins() {
                    let (a, b) = (f.at(0, i), f.at(1, i));
                    f.set(0, i, a + b);
                    f.set(1, i, a - b);
                }
            }));
            if plain {
                T::Leaf(Box::new(multipass::<U2>()), false, 0.0, 2, 2)
            } else {
                T::Leaf(u, true, w as f64, 2, 2)
            }
        };
    }
    if i == 1 && o == 2 && r.chance(0.5) {
        return T::Leaf(Box::new(split::<U2>()), false, 0.0, 1, 2);
    }
    if i == 1 && o == 2 {
        return T::Leaf(Box::new(pan(0.2)), false, 0.0, 1, 2);
    }
    if i == 2 && o == 1 {
        return if plain || r.chance(0.5) {
            T::Leaf(Box::new(join::<U2>()), true, 0.0, 2, 1)
        } else {
            T::Leaf(Box::new(map(|x: &Frame<f32, U2>| x[0] * x[1])), true, 0.0, 2, 1)
        };
    }
    if i == 3 && o == 1 && !plain {
        return T::Leaf(Box::new(resynth::<U3, U1, _>(128, |f| f.set(0, 3, f.at(1, 3)))), true, 128.0, 3, 1);
    }
    if i == o {
        let mut x = leaf(r, 1, 1, sr, plain);
        for _ in 1..i {
            x = T::Stack(Box::new(x), Box::new(leaf(r, 1, 1, sr, plain)));
        }
        return x;
    }
    if i < o {
        let a = leaf(r, i, i, sr, plain);
        let b = leaf(r, i, o - i, sr, plain);
        T::Branch(Box::new(a), Box::new(b))
    } else {
        let a = leaf(r, i - o, o, sr, plain);
        let b = leaf(r, o, o, sr, plain);
        T::Sum(Box::new(a), Box::new(b))
    }
}

fn tree(r: &mut Rng, depth: usize, i: usize, o: usize, sr: f64, plain: bool) -> T {
    if i == 0 {
        if !plain && r.chance(0.2) {
            return match o {
                1 => T::Const(Box::new(dc(0.5))),
                _ => T::Stack(Box::new(T::Const(Box::new(dc(0.5)))), Box::new(tree(r, 0, 0, o - 1, sr, plain))),
            };
        }
        if o == 1 {
            let u: U = match r.below(4) {
                0 => Box::new(noise()),
                1 => Box::new(lfo(|t| 1.0 - 0.01 * t)),
                2 => Box::new(impulse::<U1>()),
                _ => Box::new(envelope(|t| (t + 1.0) * 0.2)),
            };
            if depth > 0 {
                return T::Pipe(Box::new(T::Gen(u, 0.0)), Box::new(tree(r, depth - 1, 1, o, sr, plain)));
            }
            return T::Gen(u, 0.0);
        }
        return T::Stack(Box::new(tree(r, depth, 0, 1, sr, plain)), Box::new(tree(r, depth, 0, o - 1, sr, plain)));
    }
    if depth == 0 {
        return leaf(r, i, o, sr, plain);
    }
    let d = depth - 1;
    let b = |x: T| Box::new(x);
    loop {
        match r.below(13) {
            12 => {
                // Mix in a generator or a constant before or after the signal.
                let m = r.usize(1, 2);
                let x = tree(r, d, i, m, sr, plain);
                let k = if r.chance(0.5) { T::Const(Box::new(dc(0.5))) } else { tree(r, 0, 0, 1, sr, plain) };
                if plain {
                    continue;
                }
                let s = if r.chance(0.5) { T::Stack(b(k), b(x)) } else { T::Stack(b(x), b(k)) };
                return T::Pipe(b(s), b(tree(r, d, m + 1, o, sr, plain)));
            }
            0 | 1 | 2 => {
                let m = r.usize(1, 3);
                let x = tree(r, d, i, m, sr, plain);
                return T::Pipe(b(x), b(tree(r, d, m, o, sr, plain)));
            }
            3 if i > 1 && o > 1 => {
                let (i1, o1) = (r.usize(1, i - 1), r.usize(1, o - 1));
                let x = tree(r, d, i1, o1, sr, plain);
                return T::Stack(b(x), b(tree(r, d, i - i1, o - o1, sr, plain)));
            }
            4 if o > 1 => {
                let o1 = r.usize(1, o - 1);
                let x = tree(r, d, i, o1, sr, plain);
                return T::Branch(b(x), b(tree(r, d, i, o - o1, sr, plain)));
            }
            5 => {
                let x = tree(r, d, i, o, sr, plain);
                return T::Bus(b(x), b(tree(r, d, i, o, sr, plain)));
            }
            6 if i > 1 => {
                let i1 = r.usize(1, i - 1);
                let x = tree(r, d, i1, o, sr, plain);
                return T::Sum(b(x), b(tree(r, d, i - i1, o, sr, plain)));
            }
            7 if i > 1 && !plain => {
                let i1 = r.usize(1, i - 1);
                let x = tree(r, d, i1, o, sr, plain);
                return T::Product(b(x), b(tree(r, d, i - i1, o, sr, plain)));
            }
            8 if i == o && o > 1 => {
                let o1 = r.usize(1, o - 1);
                return T::Thru(b(tree(r, d, i, o1, sr, plain)));
            }
            9 => return T::Neg(b(tree(r, d, i, o, sr, plain))),
            10 => return T::Scale(b(tree(r, d, i, o, sr, plain)), 0.8),
            11 if !plain => return T::Add(b(tree(r, d, i, o, sr, plain)), 0.5),
            _ => (),
        }
    }
}

fn case_model(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (i, o) = (r.below(4), r.usize(1, 3));
    let depth = r.below(5);
    let t = tree(r, depth, i, o, sr, false);
    assert_eq!((t.ins(), t.outs()), (i, o));
    let want = t.lat(&vec![Some(0.0); i]).into_iter().fold(None, least);
    rec.ctx = format!("sr {} {}", sr, t.desc());
    let key = rec.ctx.clone();
    let mut u: U = Box::new(t.net());
    if r.chance(0.5) {
        u.set_sample_rate(rate(r));
        let n = r.below(100);
        let x: Chans = vec![vec![0.1; n]; i];
        render(u.as_mut(), &x, &blocks(n));
    }
    u.set_sample_rate(sr);
    let got = u.latency();
    if got.is_some() != want.is_some() || (got.unwrap_or(0.0) - want.unwrap_or(0.0)).abs() > 1e-6 {
        return Err(format!("latency {:?} expected {:?}", got, want));
    }
    if want.unwrap_or(0.0) > 0.0 {
        rec.count("with_latency", 1);
    }
    rec.distinct(&key);
    Ok(())
}

/// First sample at which a step input can be heard.
fn case_measure(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (i, o) = (r.usize(1, 3), r.usize(1, 3));
    let depth = r.below(4);
    let t = tree(r, depth, i, o, sr, true);
    let want = t.lat(&vec![Some(0.0); i]);
    rec.ctx = format!("measured sr {} {}", sr, t.desc());
    let key = rec.ctx.clone();
    let mut u: U = Box::new(t.net());
    u.set_sample_rate(sr);
    let l = u.latency().ok_or("latency of connected units is None")?;
    if r.chance(0.3) {
        let n = r.below(2000);
        let x: Chans = vec![vec![0.3; n]; i];
        render(u.as_mut(), &x, &blocks(n));
        u.reset();
    }
    let n = want.iter().map(|x| x.unwrap()).fold(0.0, f64::max) as usize + 80;
    let amp: Vec<f32> = (0..i).map(|_| r.f(0.05, 0.9)).collect();
    let x: Chans = (0..i).map(|c| vec![amp[c]; n]).collect();
    let y = render(u.as_mut(), &x, &blocks(n));
    let mut first = usize::MAX;
    for c in 0..o {
        let p = y[c].iter().position(|v| *v != 0.0).unwrap_or(usize::MAX);
        if p < want[c].unwrap() as usize {
            return Err(format!("output {} responds at {}, before its latency {:?}", c, p, want[c]));
        }
        first = Ord::min(first, p);
    }
    if first != usize::MAX && first as f64 != l {
        // Paths can cancel each other, as in differences: allow a late start only then.
        let late = first as f64 > l;
        if !late || !key.contains('-') && !key.contains('+') && !key.contains('&') {
            return Err(format!("latency() is {}, output starts at {}", l, first));
        }
        rec.count("cancelled", 1);
    }
    rec.distinct(&key);
    Ok(())
}

fn chans(w: &Wave) -> Chans {
    (0..w.channels()).map(|c| w.channel(c).to_vec()).collect()
}

/// Latency compensated rendering of waves.
fn case_wave(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let t1 = r.lf(0.0003, 0.01);
    let t2 = r.lf(0.0003, 0.01);
    let (l1, l2) = (look(sr, t1), look(sr, t2));
    let n = r.usize(1, 1500);
    let dur = n as f64 / sr;
    if r.chance(0.5) {
        let seed = r.u64();
        let g = || -> Net { Net::wrap(DUnit::boxed(seed, 0, 1)) };
        let (mut u, l, name): (U, f64, &str) = match r.below(7) {
            0 => (Box::new(g() >> limiter(t1, 0.1)), l1, "limiter"),
            1 => (Box::new(g() >> limiter(t1, 0.1) >> limiter(t2, 0.1)), l1 + l2, "two limiters"),
            2 => (Box::new(g() >> (limiter(t1, 0.1) ^ limiter(t2, 0.1))), l1.min(l2), "branch"),
            3 => (Box::new(g() >> tick() >> limiter(t1, 0.1)), l1, "tick limiter"),
            4 => (Box::new(lfo(|t| (440.0, exp(-t))) >> dsf_square() >> limiter(t1, t2)), l1, "example"),
            5 => (Box::new(lfo(|t| 0.3 + t) >> limiter(t1, t2)), l1, "lfo"),
            _ => (Box::new(g() >> pass()), 0.0, "no latency"),
        };
        // The test unit does not declare any latency (unknown), so it is measured through others.
        rec.ctx = format!("render_latency {} sr {} n {}", name, sr, n);
        if name != "example" && name != "lfo" {
            // Replace the generator of unknown latency with one that is known.
            let s = r.f(0.2, 2.0);
            let k = r.f(100.0, 900.0);
            let g = move || lfo(move |t: f32| s * sin_hz(k, t) + 0.1);
            u = match name {
                "limiter" => Box::new(g() >> limiter(t1, 0.1)),
                "two limiters" => Box::new(g() >> limiter(t1, 0.1) >> limiter(t2, 0.1)),
                "branch" => Box::new(g() >> (limiter(t1, 0.1) ^ limiter(t2, 0.1))),
                "tick limiter" => Box::new(g() >> tick() >> limiter(t1, 0.1)),
                _ => Box::new(g() >> pass()),
            };
        }
        if r.chance(0.5) {
            u.set_sample_rate(rate(r));
            let m = r.below(500);
            render(u.as_mut(), &vec![], &blocks(m));
        }
        let mut v = u.clone();
        v.set_sample_rate(sr);
        v.reset();
        let total = n + l as usize;
        let raw = render(v.as_mut(), &vec![], &blocks(total));
        let want: Chans = raw.iter().map(|c| c[l as usize..].to_vec()).collect();
        let w = Wave::render_latency(sr, dur, u.as_mut());
        if w.len() != n || w.sample_rate() != sr {
            return Err(format!("{} samples, expected {}", w.len(), n));
        }
        compare(&want, &chans(&w), 1e-4, 1e-4)?;
    } else {
        let ch = if r.chance(0.5) { 1 } else { 2 };
        let (mut u, l): (U, f64) = if ch == 1 {
            match r.below(4) {
                0 => (Box::new(limiter(t1, 0.1)), l1),
                1 => (Box::new(limiter(t1, 0.1) >> limiter(t2, 0.1)), l1 + l2),
                2 => (Box::new(limiter(t1, 0.1) & limiter(t2, 0.1)), l1.min(l2)),
                _ => (Box::new(lowpole_hz(300.0)), 0.0),
            }
        } else {
            match r.below(3) {
                0 => (Box::new(limiter_stereo(t1, 0.1)), l1),
                1 => (Box::new(limiter(t1, 0.1) | limiter(t2, 0.1)), l1.min(l2)),
                _ => (Box::new(limiter_stereo(t1, 0.1) >> Net::wrap(Box::new(limiter_stereo(t2, 0.2)))), l1 + l2),
            }
        };
        let len = r.usize(1, 1500);
        let x: Chans = (0..ch).map(|_| audio(r, len)).collect();
        let mut wave = Wave::zero(ch, sr, len as f64 / sr);
        for c in 0..ch {
            for i in 0..len {
                wave.set(c, i, x[c][i]);
            }
        }
        rec.ctx = format!("filter_latency {} channels sr {} n {} of {} latency {}", ch, sr, n, len, l);
        let mut v = u.clone();
        if r.chance(0.5) {
            u.set_sample_rate(rate(r));
        }
        v.set_sample_rate(sr);
        let total = n + l as usize;
        let mut xx = x.clone();
        for c in xx.iter_mut() {
            c.resize(Ord::max(total, len), 0.0);
        }
        let raw = render(v.as_mut(), &xx, &blocks(total));
        let want: Chans = raw.iter().map(|c| c[l as usize..].to_vec()).collect();
        let w = wave.filter_latency(dur, u.as_mut());
        if w.len() != n || w.sample_rate() != sr {
            return Err(format!("{} samples, expected {}", w.len(), n));
        }
        compare(&want, &chans(&w), 1e-4, 1e-4)?;
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// Static combinators of limiters.
fn case_static(i: usize, rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let typed = r.chance(0.5);
    let ts: Vec<f32> = (0..6).map(|_| r.lf(0.0003, 0.05)).collect();
    let l = |i: u64| limiter(ts[i as usize], 0.1);
    let s = |i: u64| limiter_stereo(ts[i as usize], 0.1);
    let k = |i: usize| look(sr, ts[i]);
    let min3 = f64::min(k(0), f64::min(k(1), k(2)));
    macro_rules! list {
        ($( $e:expr => $v:expr ),* $(,)?) => {{
            let v: Vec<(&str, U, Option<f64>)> = if typed {
                vec![$( (stringify!($e), Box::new(Typed($e)), $v) ),*]
            } else {
                vec![$( (stringify!($e), Box::new($e), $v) ),*]
            };
            v
        }};
    }
    let mut v = list!(
        l(0) >> l(1) => Some(k(0) + k(1)),
        l(0) | l(1) => Some(k(0).min(k(1))),
        l(0) ^ l(1) => Some(k(0).min(k(1))),
        l(0) & l(1) => Some(k(0).min(k(1))),
        l(0) + l(1) => Some(k(0).min(k(1))),
        l(0) - l(1) => Some(k(0).min(k(1))),
        l(0) * l(1) => Some(k(0).min(k(1))),
        -l(0) => Some(k(0)),
        l(0) * 0.5 => Some(k(0)),
        l(0) + 0.5 => Some(k(0)),
        1.0 - l(0) => Some(k(0)),
        l(0) + dc(1.0) => Some(k(0)),
        dc(1.0) * l(0) => Some(k(0)),
        !l(0) => Some(k(0)),
        !(l(0) + l(1)) => Some(0.0),
        busi::<U3, _, _>(l) => Some(min3),
        stacki::<U3, _, _>(l) => Some(min3),
        branchi::<U3, _, _>(l) => Some(min3),
        sumi::<U3, _, _>(l) => Some(min3),
        pipei::<U3, _, _>(l) => Some(k(0) + k(1) + k(2)),
        stacki::<U3, _, _>(s) => Some(min3),
        (l(0) | l(1)) >> s(2) => Some(k(0).min(k(1)) + k(2)),
        (l(0) | l(1)) >> join::<U2>() >> l(2) => Some(k(0).min(k(1)) + k(2)),
        (l(0) | l(1)) >> reverse::<U2>() >> (l(2) | pass()) => Some(f64::min(k(1) + k(2), k(0))),
        (l(0) | l(1)) >> (sink() | l(2)) => Some(k(1) + k(2)),
        (l(0) | l(1)) >> multisplit::<U2, U2>() >> (l(2) | l(3) | l(4) | sink()) => Some(f64::min(k(0) + k(2), f64::min(k(1) + k(3), k(0) + k(4)))),
        noise() >> l(0) => Some(k(0)),
        (noise() | noise()) >> s(0) => Some(k(0)),
        (noise() >> l(0)) | dc(1.0) => Some(k(0)),
        (noise() | dc(1.0)) >> (l(0) | l(1)) => Some(k(0)),
        sine_hz(440.0) => None,
        dc(1.0) => None,
        sink() => None,
        multisink::<U3>() => None,
        pass() => Some(0.0),
        tick() => Some(0.0),
        l(0) >> tick() >> delay(0.1) >> l(1) => Some(k(0) + k(1)),
        l(0) >> lowpass_hz(500.0, 1.0) >> shape(Tanh(1.0)) >> declick() >> l(1) => Some(k(0) + k(1)),
        l(0) >> pan(0.3) >> s(1) => Some(k(0) + k(1)),
        (l(0) | dc(0.2)) >> panner() >> s(1) => Some(k(0) + k(1)),
        l(0) >> moog_hz(500.0, 0.2) >> l(1) => Some(k(0) + k(1)),
        l(0) >> dlowpass_hz(Tanh(1.0), 900.0, 1.0) >> l(1) => Some(k(0) + k(1)),
        (l(0) | l(1)) >> rotate(0.3, 1.0) => Some(k(0).min(k(1))),
        (l(0) | l(1)) >> reverb_stereo(10.0, 1.0, 0.5) => Some(k(0).min(k(1))),
        unit::<U1, U1>(Box::new(l(0))) >> l(1) => Some(k(0) + k(1)),
        l(0) >> resynth::<U1, U1, _>(256, |f| f.set(0, 1, f.at(0, 1))) => Some(k(0) + 256.0),
        (l(0) | l(1)) >> resynth::<U2, U1, _>(256, |f| f.set(0, 1, f.at(0, 1))) => Some(k(0).min(k(1)) + 256.0),
        l(0) >> monitor(&shared(0.0), Meter::Sample) >> l(1) => Some(k(0) + k(1)),
        l(0) >> chorus(0, 0.0, 0.005, 0.5) => Some(k(0)),
        l(0) >> feedback(delay(0.1) * 0.5) => Some(k(0)),
    );
    let j = i % v.len();
    let (name, mut u, mut want) = v.swap_remove(j);
    if name.starts_with("sine_hz") {
        // A sine with a constant frequency has an unknown or zero pre-delay.
        u.set_sample_rate(sr);
        want = u.latency();
        if want.unwrap_or(0.0) != 0.0 {
            return Err(format!("sine_hz has latency {:?}", want));
        }
    }
    rec.ctx = format!("{} sr {} lookahead {:?}", name, sr, ts);
    if r.chance(0.5) {
        u.set_sample_rate(rate(r));
    }
    u.set_sample_rate(sr);
    let mut net: U = Box::new(Net::wrap(u.clone()));
    net.set_sample_rate(sr);
    for x in [u.latency(), net.latency(), u.clone().latency()] {
        let same = x.is_some() == want.is_some() && (x.unwrap_or(0.0) - want.unwrap_or(0.0)).abs() < 1e-6;
        if !same {
            return Err(format!("latency {:?} expected {:?}", x, want));
        }
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P14", "distinct graphs, sample rates and lookahead times whose latency was compared");
    let n = c.scale(6, 60);
    c.par("static", 50 * 40 * n, case_static);
    c.par("model", 20000 * n, |_, rec| case_model(rec));
    c.par("measure", 4000 * n, |_, rec| case_measure(rec));
    c.par("wave", 3000 * n, |_, rec| case_wave(rec));
    c.finish();
}
