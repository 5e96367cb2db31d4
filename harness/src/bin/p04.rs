//! P04: lifecycle calls reach every contained unit; only the final sample rate matters.
use vh::catalog::*;
use vh::gen::Gen;
use vh::probe::*;
use vh::*;

fn main() {
    let mut ctx = Ctx::new(
        "P04",
        "probe stream: nest logging probe nodes and shapes inside random containers and check the calls each one receives; rate stream: render after a random history of rates vs after the final rate alone; nontrivial = distinct nesting / nonzero output that depends on the rate",
    );
    let n = ctx.scale(200000, 3000000);
    ctx.par("probe", n, |i, rec| {
        let mut r = rec.rng.clone();
        let mut c = Ctor::new();
        let depth = if std::env::var("D1").is_ok() { 1 } else { 1 + i % 3 };
        let mut u = c.node(&mut r, depth, 1.0);
        rec.ctx = c.desc.clone();
        rec.distinct(&c.desc);
        rec.count("probes", c.parts.len() as u64);
        let drain = |c: &Ctor| -> Vec<Vec<Ev>> { c.parts.iter().map(|p| p.log.take()).collect() };
        drain(&c);
        let mut sr = DEFAULT_SR;
        let mut first = true;
        for _ in 0..r.usize(2, 7) {
            // A backend picks up pending commits when it runs.
            if first {
                run(&mut u, &mut r);
                drain(&c);
                first = false;
            }
            match r.below(6) {
                0 | 1 => {
                    sr = rate(&mut r);
                    u.set_sample_rate(sr);
                    for (p, log) in c.parts.iter().zip(drain(&c)) {
                        let last = log.iter().rev().find_map(|e| if let Ev::Rate(x) = e { Some(*x) } else { None });
                        match last {
                            None => {
                                // A container may skip the call when the rate is unchanged; verified by the run below.
                                rec.count("rate_not_forwarded", 1);
                            }
                            Some(x) if (x - sr * p.factor).abs() > 1e-6 * sr => return Err(format!("{} got rate {} instead of {}", p.desc, x, sr * p.factor)),
                            _ => (),
                        }
                    }
                    run(&mut u, &mut r);
                    check_run(&c, sr, rec)?;
                }
                2 => {
                    u.reset();
                    for (p, log) in c.parts.iter().zip(drain(&c)) {
                        if !log.contains(&Ev::Reset) {
                            return Err(format!("{} did not receive reset", p.desc));
                        }
                    }
                    rec.count("resets", 1);
                    run(&mut u, &mut r);
                    check_run(&c, sr, rec)?;
                }
                3 => {
                    u.allocate();
                    for (p, log) in c.parts.iter().zip(drain(&c)) {
                        if !p.shape && !p.event && !log.contains(&Ev::Alloc) {
                            return Err(format!("{} did not receive allocate", p.desc));
                        }
                    }
                    rec.count("allocates", 1);
                }
                4 => {
                    let h = fundsp::math::AttoHash::new(r.u64());
                    u.ping(true, h.clone());
                    for (p, log) in c.parts.iter().zip(drain(&c)) {
                        if log.iter().any(|e| matches!(e, Ev::Hash(_))) {
                            return Err(format!("{} received a hash from a probing ping", p.desc));
                        }
                    }
                    u.ping(false, h);
                    let mut seen: Vec<(u64, usize)> = vec![];
                    for (k, (p, log)) in c.parts.iter().zip(drain(&c)).enumerate() {
                        if p.shape || p.event {
                            continue;
                        }
                        let hs: Vec<u64> = log.iter().filter_map(|e| if let Ev::Hash(x) = e { Some(*x) } else { None }).collect();
                        if hs.is_empty() {
                            return Err(format!("{} did not receive ping", p.desc));
                        }
                        let x = *hs.last().unwrap();
                        if let Some((_, j)) = seen.iter().find(|(y, _)| *y == x) {
                            // Events of a sequencer and clones in multi-filter effects may share structure.
                            return Err(format!("{} and {} received the same hash", p.desc, c.parts[*j].desc));
                        }
                        seen.push((x, k));
                    }
                    rec.count("pings", 1);
                    run(&mut u, &mut r);
                    drain(&c);
                }
                _ => {
                    run(&mut u, &mut r);
                    drain(&c);
                    // Clones forward, too.
                    if r.chance(0.3) && c.keep.is_empty() {
                        u = u.clone();
                        rec.count("clones", 1);
                    }
                }
            }
        }
        rec.sample = Some(rec.ctx.clone());
        Ok(())
    });

    let entries: Vec<Entry> = all().into_iter().filter(|e| e.flags & (SHARED) == 0).collect();
    let reps = ctx.scale(180, 3000);
    let es = &entries;
    ctx.par("rate", entries.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let stim = |r: &mut Rng, n: usize| e.stim(r, n, sr);
        let r0 = r.fork();
        let mk = || e.build_raw(&mut r0.clone(), sr);
        body(rec, &mut r, &e.label(), &mk, &stim, sr, if e.flags & HEAVY != 0 { 300 } else { 900 }, 2.0e-5, e.flags & BLOCKY == 0)
    });
    let gen = Gen::new(SHARED | BLOCKY);
    let n = ctx.scale(60000, 900000);
    ctx.par("rategraph", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let r0 = r.fork();
        let mk = || gen.gen(&mut r0.clone(), d, i, o, sr).unit;
        let desc = gen.gen(&mut r0.clone(), d, i, o, sr).desc;
        let stim = |r: &mut Rng, n: usize| stimuli(r, &vec![Kind::A; i], n);
        body(rec, &mut r, &desc, &mk, &stim, sr, 400, 2.0e-5, true)
    });
    let n = ctx.scale(10000, 150000);
    ctx.par("reporting", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let q = r.fork();
        let ((desc, s, mut many), (_, t, mut one)) = (watch::watched(&mut q.clone()), watch::watched(&mut q.clone()));
        let sr = rate(&mut r);
        for _ in 0..r.usize(0, 3) {
            many.set_sample_rate(rate(&mut r));
        }
        many.set_sample_rate(sr);
        one.set_sample_rate(sr);
        // The same behaviour at another rate, with the duration scaled, would need other meters; a rate well apart must show.
        let n = r.usize(1, 1000);
        let x = stimuli(&mut r, &[Kind::A], n);
        let p = partition(&mut r, n);
        rec.ctx = format!("{} at rate {}", desc, sr);
        let (a, b) = (watch::watch(many.as_mut(), &s, &x, &p), watch::watch(one.as_mut(), &t, &x, &p));
        for i in 0..a.len() {
            if (a[i] - b[i]).abs() > 1e-6 * b[i].abs() {
                return Err(format!("the variable reads {} after {} step(s) with a history of rates, and {} with the last alone", a[i], i + 1, b[i]));
            }
        }
        // Time scales are in seconds: the same pulse reads the same at twice the rate.
        if desc.contains("Peak") || desc.contains("Rms") {
            let mut level = vec![];
            for rr in [sr, sr * 2.0] {
                let (_, s, mut u) = watch::watched(&mut q.clone());
                u.set_sample_rate(rr);
                let k = rr as usize / 50;
                let mut x = vec![0.0; k];
                for v in x.iter_mut().take(k / 4) {
                    *v = 1.0;
                }
                watch::watch(u.as_mut(), &s, &vec![x], &vec![TICK; k]);
                level.push(s.value());
            }
            if (level[0] - level[1]).abs() > 0.02 * level[0].abs() + 0.005 {
                return Err(format!("a pulse of 5 ms reads {} after 20 ms at rate {} and {} at twice the rate", level[0], sr, level[1]));
            }
        }
        rec.count("reads", a.len() as u64);
        rec.distinct(&rec.ctx.clone());
        Ok(())
    });
    ctx.finish()
}

const DEFAULT_SR: f64 = 44100.0;

fn run(u: &mut Unit, r: &mut Rng) {
    let n = r.usize(1, 150);
    let i: Chans = vec![vec![0.1; n]];
    let p = partition(r, n);
    render(u.as_mut(), &i, &p);
}

fn check_run(c: &Ctor, sr: f64, rec: &mut Rec) -> Result<(), String> {
    for p in c.parts.iter() {
        for e in p.log.take() {
            if let Ev::Run(x) = e {
                rec.count("runs_observed", 1);
                if (x - sr * p.factor).abs() > 1e-6 * sr {
                    return Err(format!("{} runs at rate {} instead of {}", p.desc, x, sr * p.factor));
                }
            }
        }
    }
    Ok(())
}

fn body(
    rec: &mut Rec,
    r: &mut Rng,
    label: &str,
    mk: &dyn Fn() -> Unit,
    stim: &dyn Fn(&mut Rng, usize) -> Chans,
    sr: f64,
    max: usize,
    tol: f64,
    used: bool,
) -> Result<(), String> {
    let mut direct = mk();
    direct.set_sample_rate(sr);
    let mut path = mk();
    let mut hist = vec![];
    let used = used && r.chance(0.5);
    for _ in 0..r.usize(1, 3) {
        let x = rate(r);
        hist.push(x);
        path.set_sample_rate(x);
        if used {
            let n = r.usize(1, 200);
            let i = stim(r, n);
            let p = partition(r, n);
            render(path.as_mut(), &i, &p);
        }
    }
    path.set_sample_rate(sr);
    if used {
        path.reset();
    }
    let n1 = r.usize(1, max);
    let i1 = stim(r, n1);
    let p1 = partition(r, n1);
    rec.ctx = format!("{} rates {:?} (used: {}) then {}", label, hist, used, sr);
    let a = render(direct.as_mut(), &i1, &p1);
    let b = render(path.as_mut(), &i1, &p1);
    rec.count("samples_compared", a.iter().map(|c| c.len() as u64).sum());
    if a.iter().flatten().any(|x| !x.is_finite() || x.abs() > 1.0e6) {
        rec.count("skipped_unbounded", 1);
        return Ok(());
    }
    if nontrivial(&a) {
        rec.distinct(&format!("{}{:?}", label, rec.rng.0));
        let mut other = mk();
        other.set_sample_rate(hist[0]);
        if compare(&a, &render(other.as_mut(), &i1, &p1), 1e-6, 1e-6).is_err() {
            rec.count("rate_sensitive_cases", 1);
        }
    }
    compare(&a, &b, tol, tol).map_err(|e| format!("{} (direct rate vs rate history)", e))?;
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}
