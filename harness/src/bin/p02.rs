//! P02: reset returns a unit to its initial state.
use vh::catalog::*;
use vh::gen::Gen;
use vh::*;

fn main() {
    let mut ctx = Ctx::new(
        "P02",
        "use a unit on random input for a random time (mixed tick/process), reset it, replay a second stimulus and compare with a freshly built unit; nontrivial = output not all-zero and the pre-reset use changed the output of the unit without reset",
    );
    let entries: Vec<Entry> = all().into_iter().filter(|e| e.flags & (SHARED | BLOCKY) == 0).collect();
    let reps = ctx.scale(240, 4000);
    let es = &entries;
    ctx.par("opcode", entries.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let kinds_stim = |r: &mut Rng, n: usize| e.stim(r, n, sr);
        let r0 = r.fork();
        let mk = || e.build(&mut r0.clone(), sr);
        body(rec, &mut r, &e.label(), &mk, &kinds_stim, sr, if e.flags & HEAVY != 0 { 300 } else { 900 })
    });
    let gen = Gen::new(SHARED | BLOCKY);
    let n = ctx.scale(80000, 1200000);
    ctx.par("graph", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let r0 = r.fork();
        let mk = || {
            let mut g = gen.gen(&mut r0.clone(), d, i, o, sr);
            g.unit.set_sample_rate(sr);
            g.unit
        };
        let desc = gen.gen(&mut r0.clone(), d, i, o, sr).desc;
        let stim = |r: &mut Rng, n: usize| stimuli(r, &vec![Kind::A; i], n);
        body(rec, &mut r, &desc, &mk, &stim, sr, 400)
    });
    let n = ctx.scale(10000, 150000);
    ctx.par("reporting", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let q = r.fork();
        let ((desc, s, mut used), (_, t, mut fresh)) = (watch::watched(&mut q.clone()), watch::watched(&mut q.clone()));
        used.set_sample_rate(sr);
        fresh.set_sample_rate(sr);
        rec.ctx = format!("{} at rate {}", desc, sr);
        let (n0, n1) = (r.usize(1, 2000), r.usize(1, 500));
        let amp = r.log(0.001, 1.0) as f32;
        let x0 = stimuli(&mut r, &[Kind::A], n0);
        let x1: Chans = stimuli(&mut r, &[Kind::A], n1).into_iter().map(|c| c.into_iter().map(|v| v * amp).collect()).collect();
        let (p0, p1) = (partition(&mut r, n0), partition(&mut r, n1));
        let before = watch::watch(used.as_mut(), &s, &x0, &p0);
        used.reset();
        let (a, b) = (watch::watch(used.as_mut(), &s, &x1, &p1), watch::watch(fresh.as_mut(), &t, &x1, &p1));
        // An empty step reports nothing, so the variable keeps the value from before the reset.
        let first = p1.iter().position(|l| *l != 0).unwrap_or(p1.len());
        for i in first..a.len() {
            if (a[i] - b[i]).abs() > 1e-6 * b[i].abs() {
                return Err(format!("the variable reads {} after reset and {} step(s), and {} in a fresh unit", a[i], i + 1, b[i]));
            }
        }
        rec.count("reads", a.len() as u64);
        if before.last().is_some_and(|v| *v != 0.0) {
            rec.distinct(&rec.ctx.clone());
        }
        Ok(())
    });
    ctx.finish()
}

fn body(
    rec: &mut Rec,
    r: &mut Rng,
    label: &str,
    mk: &dyn Fn() -> Unit,
    stim: &dyn Fn(&mut Rng, usize) -> Chans,
    sr: f64,
    max: usize,
) -> Result<(), String> {
    let mut fresh = mk();
    let mut used = mk();
    if r.chance(0.3) {
        fresh.allocate();
        used.allocate();
    }
    let n0 = r.usize(1, max);
    let n1 = r.usize(1, max);
    let i0 = stim(r, n0);
    let i1 = stim(r, n1);
    let p0 = partition(r, n0);
    let p1 = partition(r, n1);
    rec.ctx = format!("{} sr {} use {} samples {:?}.. then reset and render {} samples {:?}", label, sr, n0, &p0[..p0.len().min(8)], n1, &p1[..p1.len().min(30)]);
    render(used.as_mut(), &i0, &p0);
    let mut dirty = used.clone();
    let again = r.chance(0.2);
    used.reset();
    if again {
        let i2 = stim(r, 50);
        render(used.as_mut(), &i2, &[50]);
        used.reset();
    }
    let a = render(fresh.as_mut(), &i1, &p1);
    let b = render(used.as_mut(), &i1, &p1);
    rec.count("samples_compared", a.iter().map(|c| c.len() as u64).sum());
    let wild = a.iter().flatten().any(|x| !x.is_finite() || x.abs() > 1.0e6);
    if wild {
        rec.count("skipped_unbounded", 1);
        return Ok(());
    }
    let c = render(dirty.as_mut(), &i1, &p1);
    if nontrivial(&a) && compare(&a, &c, 1e-6, 1e-6).is_err() {
        rec.distinct(&format!("{}{:?}", label, rec.rng.0));
        rec.count("stateful_cases", 1);
    }
    let md = compare(&a, &b, 1.0e-5, 1.0e-5).map_err(|e| format!("after reset: {} (fresh vs reset)", e))?;
    rec.sample = Some(format!("{} max diff {:e}", rec.ctx, md));
    Ok(())
}
