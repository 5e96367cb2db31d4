//! P01: block and sample-by-sample processing agree, for any partition.
use vh::catalog::*;
use vh::gen::Gen;
use vh::*;

fn main() {
    let mut ctx = Ctx::new(
        "P01",
        "random opcode parameters / random graphs, random stimuli, random block partitions (0..64, mixed with tick); nontrivial = output not all-zero and finite",
    );
    let entries: Vec<Entry> = all().into_iter().filter(|e| e.flags & BLOCKY == 0).collect();
    let reps = ctx.scale(400, 6000);
    let n = entries.len() * reps;
    let es = &entries;
    ctx.par("opcode", n, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let len = if e.flags & HEAVY != 0 { r.usize(65, 500) } else { r.usize(65, 1500) };
        let input = e.stim(&mut r, len, sr);
        let r0 = r.clone();
        let mut a = e.build(&mut r0.clone(), sr);
        let mut b = e.build(&mut r0.clone(), sr);
        if r.chance(0.5) {
            b.allocate();
        }
        let p = partition(&mut r, len);
        rec.ctx = format!("{} sr {} len {} partition {:?}", e.label(), sr, len, &p[..p.len().min(40)]);
        let oa = render(a.as_mut(), &input, &ticks(len));
        let ob = render(b.as_mut(), &input, &p);
        check(rec, e.tol, &e.label(), oa, ob, p.len())
    });
    let (es, reps) = (&entries, ctx.scale(15, 200));
    ctx.par("big block", entries.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let len = r.usize(1, 900);
        let input = e.stim(&mut r, len, sr);
        let r0 = r.clone();
        let mut a = e.build(&mut r0.clone(), sr);
        let mut b = fundsp::audiounit::BigBlockAdapter::new(e.build(&mut r0.clone(), sr));
        let mut ob: Chans = vec![vec![]; a.outputs()];
        let mut at = 0;
        let mut p = vec![];
        while at < len {
            let n = match r.below(5) {
                0 => r.usize(0, 3),
                1 => *r.pick(&[63, 64, 65, 127, 128, 129, 512]),
                _ => r.usize(1, 400),
            };
            let n = n.clamp(0, len - at);
            p.push(n);
            let spare = r.usize(0, 3);
            let x: Vec<&[f32]> = input.iter().map(|c| &c[at..at + n]).collect();
            let mut y: Chans = vec![vec![77.25; n + spare]; ob.len()];
            let mut z: Vec<&mut [f32]> = y.iter_mut().map(|c| &mut c[..]).collect();
            b.process_big(n, &x, &mut z);
            for (o, c) in ob.iter_mut().zip(&y) {
                o.extend_from_slice(&c[..n]);
                if c[n..].iter().any(|v| *v != 77.25) {
                    return Err(format!("process_big({}) of {} wrote past the end", n, e.label()));
                }
            }
            at += n;
            if at < len && r.chance(0.1) {
                // Mixed with single samples.
                let x: Vec<f32> = input.iter().map(|c| c[at]).collect();
                let mut y = vec![0.0; ob.len()];
                fundsp::audiounit::AudioUnit::tick(&mut b, &x, &mut y);
                for (o, v) in ob.iter_mut().zip(y) {
                    o.push(v);
                }
                at += 1;
                p.push(vh::TICK);
            }
        }
        rec.ctx = format!("big blocks of {} sr {} len {} partition {:?}", e.label(), sr, len, &p[..p.len().min(40)]);
        let oa = render(a.as_mut(), &input, &ticks(len));
        check(rec, e.tol, &e.label(), oa, ob, p.len())
    });
    let small: Vec<Entry> = entries
        .iter()
        .filter(|e| {
            let mut u = e.build(&mut Rng::new(1), 44100.0);
            let (i, o) = (u.inputs(), u.outputs());
            u.allocate();
            matches!((i, o), (0, 1) | (0, 2) | (1, 1) | (2, 2))
        })
        .cloned()
        .collect();
    let (ss, reps) = (&small, ctx.scale(20, 300));
    ctx.par("accessor", small.len() * reps, |i, rec| {
        let e = &ss[i % ss.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let len = r.usize(10, 200);
        let input = e.stim(&mut r, len, sr);
        let r0 = r.clone();
        let a = e.build(&mut r0.clone(), sr);
        let b = e.build(&mut r0.clone(), sr);
        rec.ctx = format!("accessors of {} sr {} len {}", e.label(), sr, len);
        accessors(&mut r, rec, a, b, &input, len)
    });
    ctx.par("typed accessor", ctx.scale(12, 200) * 10, |i, rec| {
        use fundsp::hacker32::*;
        let mut r = rec.rng.clone();
        let len = r.usize(10, 200);
        fn pair<X: AudioNode + 'static>(x: An<X>) -> (Box<dyn AudioUnit>, Box<dyn AudioUnit>) {
            (Box::new(x.clone()), Box::new(vh::dunit::Typed(x)))
        }
        let (a, b) = match i % 10 {
            0 => pair(noise()),
            1 => pair(noise() | pink()),
            2 => pair(noise() >> pan(0.3)),
            3 => pair(lowpass_hz(500.0, 2.0)),
            4 => pair(lowpass_hz(500.0, 2.0) | delay(0.001)),
            5 => pair(reverse::<U2>() >> (pass() | highpole_hz(400.0))),
            6 => pair(saw_hz(200.0) >> split::<U2>()),
            7 => pair(sine_hz(333.0) * noise()),
            8 => pair(feedback(delay(0.0003) * 0.8)),
            _ => pair((pass() | pass()) >> rotate(0.4, 0.9)),
        };
        let input = stimuli(&mut r, &vec![Kind::A; a.inputs()], len);
        rec.ctx = format!("accessors through AudioNode #{}", i % 10);
        accessors(&mut r, rec, a, b, &input, len)
    });
    let gen = Gen::new(SHARED | BLOCKY);
    let n = ctx.scale(160000, 1800000);
    ctx.par("graph", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let r0 = r.fork();
        let mk = || {
            let mut g = gen.gen(&mut r0.clone(), d, i, o, sr);
            g.unit.set_sample_rate(sr);
            g
        };
        let mut a = mk();
        let mut b = mk();
        let len = r.usize(65, 700);
        let input = stimuli(&mut r, &vec![Kind::A; i], len);
        if r.chance(0.5) {
            b.unit.allocate();
        }
        let p = partition(&mut r, len);
        rec.ctx = format!("{} sr {} len {} partition {:?}", a.desc, sr, len, &p[..p.len().min(40)]);
        let oa = render(a.unit.as_mut(), &input, &ticks(len));
        let ob = render(b.unit.as_mut(), &input, &p);
        let desc = a.desc.clone();
        check(rec, 500.0, &desc, oa, ob, p.len())
    });
    ctx.finish()
}

fn check(rec: &mut Rec, tol: f64, label: &str, oa: Chans, ob: Chans, steps: usize) -> Result<(), String> {
    rec.count("samples_compared", oa.iter().map(|c| c.len() as u64).sum());
    rec.count("calls", steps as u64);
    let wild = oa.iter().flatten().any(|x| !x.is_finite() || x.abs() > 1.0e6);
    if wild {
        rec.count("skipped_unbounded", 1);
        return Ok(());
    }
    if nontrivial(&oa) {
        rec.distinct(&format!("{}{:?}", label, rec.rng.0));
    }
    let t = 2.0e-5 * tol;
    if label.ends_with("shape_crush") {
        // A staircase: rounding at exact ties is not specified.
        let bad: usize =
            oa.iter().zip(&ob).map(|(a, b)| a.iter().zip(b).filter(|(x, y)| (**x - **y).abs() > 1.0e-4).count()).sum();
        if bad <= 2 {
            return Ok(());
        }
    }
    let md = compare(&oa, &ob, t, t)?;
    if std::env::var("CAL").is_ok() && md > 0.1 * t {
        eprintln!("CAL {:.3} {}", md / t, rec.ctx.chars().take(60).collect::<String>());
    }
    if md > 0.0 {
        rec.count("inexact_but_within_tolerance", 1);
    } else {
        rec.count("bit_identical", 1);
    }
    rec.sample = Some(format!("{} max diff {:e}", rec.ctx, md));
    Ok(())
}

/// The convenience calls render the next sample of the same stream.
fn accessors(r: &mut Rng, rec: &mut Rec, mut a: catalog::Unit, mut b: catalog::Unit, input: &Chans, len: usize) -> Result<(), String> {
    let want = render(a.as_mut(), input, &ticks(len));
    let (i, o) = (a.inputs(), a.outputs());
    for k in 0..len {
        let (x, y): (Vec<f32>, Vec<f32>) = match (i, o) {
            (0, _) if r.chance(0.5) => {
                let m = b.get_mono();
                (vec![m], vec![if o == 1 { want[0][k] } else { (want[0][k] + want[1][k]) * 0.5 }])
            }
            (0, _) => {
                let s = b.get_stereo();
                (vec![s.0, s.1], vec![want[0][k], want[o - 1][k]])
            }
            (1, _) => (vec![b.filter_mono(input[0][k])], vec![want[0][k]]),
            _ => {
                let s = b.filter_stereo(input[0][k], input[1][k]);
                (vec![s.0, s.1], vec![want[0][k], want[1][k]])
            }
        };
        for (x, y) in x.iter().zip(&y) {
            if x.is_finite() && y.is_finite() && (x - y).abs() > 1e-6 * (1.0 + y.abs()) {
                return Err(format!("convenience call gives {} at sample {}, tick {}", x, k, y));
            }
        }
    }
    rec.count("accessor_calls", len as u64);
    rec.distinct(&format!("{}{:?}", rec.ctx, rec.rng.0));
    Ok(())
}
