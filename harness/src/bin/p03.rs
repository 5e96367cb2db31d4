//! P03: clones continue identically and independently.
use fundsp::audiounit::AudioUnit;
use fundsp::net::Net;
use fundsp::sequencer::Sequencer;
use fundsp::slot::Slot;
use fundsp::sequencer::Fade;
use vh::catalog::*;
use vh::dunit::DUnit;
use vh::gen::Gen;
use vh::*;

fn main() {
    let mut ctx = Ctx::new(
        "P03",
        "use a unit for a random time, clone it, then interleave use/reset/re-rating/dropping of one copy with rendering of the other (sometimes on another thread); both must continue as a never-cloned twin does; nontrivial = output not all-zero",
    );
    let entries: Vec<Entry> = all().into_iter().filter(|e| e.flags & (SHARED) == 0).collect();
    let reps = ctx.scale(240, 4000);
    let es = &entries;
    ctx.par("opcode", entries.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let kinds_stim = |r: &mut Rng, n: usize| e.stim(r, n, sr);
        let r0 = r.fork();
        let mk = || e.build(&mut r0.clone(), sr);
        body(rec, &mut r, &e.label(), &mk, &kinds_stim, sr, if e.flags & HEAVY != 0 { 300 } else { 700 })
    });
    let gen = Gen::new(SHARED);
    let n = ctx.scale(75000, 1200000);
    ctx.par("graph", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let r0 = r.fork();
        let mk = || {
            let mut g = gen.gen(&mut r0.clone(), d, i, o, sr);
            g.unit.set_sample_rate(sr);
            g.unit
        };
        let desc = gen.gen(&mut r0.clone(), d, i, o, sr).desc;
        let stim = |r: &mut Rng, n: usize| stimuli(r, &vec![Kind::A; i], n);
        body(rec, &mut r, &desc, &mk, &stim, sr, 400)
    });
    // Containers in the middle of fades, edits and events.
    let n = ctx.scale(30000, 600000);
    ctx.par("container", n, |i, rec| {
        let mut r = rec.rng.clone();
        let sr = rate(&mut r);
        let kind = i % 5;
        let (ni, no) = if kind >= 3 { (0, r.usize(1, 2)) } else { (r.below(3), r.usize(1, 2)) };
        let r0 = r.fork();
        let mk = || container(&mut r0.clone(), kind, ni, no, sr);
        let stim = |r: &mut Rng, n: usize| stimuli(r, &vec![Kind::A; ni], n);
        let label = ["Net with crossfades", "NetBackend with crossfades", "Slot with queued updates", "Sequencer with edits", "SequencerBackend with edits"][kind];
        body(rec, &mut r, label, &mk, &stim, sr, 700)
    });
    ctx.par("sequencer_history", ctx.scale(16000, 400000), |_i, rec| vh::seqdrive::case(rec, vh::seqdrive::Mode::Cloned));
    ctx.finish()
}

fn container(r: &mut Rng, kind: usize, ni: usize, no: usize, sr: f64) -> Unit {
    let fade = |r: &mut Rng| if r.chance(0.5) { Fade::Smooth } else { Fade::Power };
    let warm = |u: &mut dyn AudioUnit, r: &mut Rng, max: usize| {
        let n = r.usize(1, max);
        let x: Chans = (0..ni).map(|_| audio(r, n)).collect();
        let p = partition(r, n);
        render(u, &x, &p);
    };
    match kind {
        0 | 1 => {
            let mut net = Net::new(ni, no);
            net.set_sample_rate(sr);
            let mut ids = vec![];
            for c in 0..no {
                let id = net.push(DUnit::boxed(r.u64(), ni, 1));
                for p in 0..ni {
                    net.connect_input(p, id, p);
                }
                net.connect_output(id, 0, c);
                ids.push(id);
            }
            let mut back = if kind == 1 { Some(net.backend()) } else { None };
            for _ in 0..r.usize(1, 5) {
                let id = *r.pick(&ids);
                let t = r.uni(20.0, 500.0) / sr;
                let f = fade(r);
                net.crossfade(id, f, t as f32, DUnit::boxed(r.u64(), ni, 1));
                match &mut back {
                    Some(b) => {
                        net.commit();
                        warm(b, r, 150);
                    }
                    None => warm(&mut net, r, 150),
                }
            }
            match back {
                Some(b) => Box::new(b),
                None => Box::new(net),
            }
        }
        2 => {
            let (mut slot, mut back) = Slot::new(DUnit::boxed(r.u64(), ni, no));
            back.set_sample_rate(sr);
            for _ in 0..r.usize(1, 5) {
                let t = r.uni(20.0, 500.0) / sr;
                let f = fade(r);
                slot.set(f, t, DUnit::boxed(r.u64(), ni, no));
                warm(&mut back, r, 150);
            }
            Box::new(back)
        }
        _ => {
            let mut s = Sequencer::new(r.chance(0.5), no);
            s.set_sample_rate(sr);
            let mut back = if kind == 4 { Some(s.backend()) } else { None };
            let mut ids = vec![];
            for _ in 0..r.usize(1, 4) {
                for _ in 0..r.usize(1, 4) {
                    let (a, d) = (r.uni(0.0, 300.0) / sr, r.uni(10.0, 700.0) / sr);
                    let f = fade(r);
                    let (fi, fo) = (r.uni(0.0, 0.5) * d, r.uni(0.0, 0.5) * d);
                    ids.push((s.push_relative(a, a + d, f, fi, fo, DUnit::boxed(r.u64(), 0, no)), a + d));
                }
                if r.chance(0.6) {
                    let k = r.below(ids.len());
                    let (e, fo) = (r.uni(0.1, 0.9) * ids[k].1, r.uni(0.0, 50.0) / sr);
                    s.edit_relative(ids[k].0, e, fo);
                }
                match &mut back {
                    Some(b) => warm(b, r, 120),
                    None => warm(&mut s, r, 120),
                }
            }
            match back {
                Some(b) => Box::new(b),
                None => Box::new(s),
            }
        }
    }
}

fn abuse(u: &mut Unit, r: &mut Rng, stim: &dyn Fn(&mut Rng, usize) -> Chans) {
    match r.below(6) {
        0 => u.reset(),
        1 => u.set_sample_rate(rate(r)),
        2 => u.allocate(),
        _ => {
            let n = r.usize(1, 100);
            let i = stim(r, n);
            let p = partition(r, n);
            render(u.as_mut(), &i, &p);
        }
    }
}

fn body(
    rec: &mut Rec,
    r: &mut Rng,
    label: &str,
    mk: &dyn Fn() -> Unit,
    stim: &dyn Fn(&mut Rng, usize) -> Chans,
    sr: f64,
    max: usize,
) -> Result<(), String> {
    let mut twin = mk();
    let mut orig = mk();
    let n0 = if r.chance(0.1) { 0 } else { r.usize(1, max) };
    let i0 = stim(r, n0);
    let p0 = if n0 == 0 { vec![] } else { partition(r, n0) };
    rec.ctx = format!("{} sr {} use {} samples {:?}.. then clone", label, sr, n0, &p0[..p0.len().min(8)]);
    render(twin.as_mut(), &i0, &p0);
    render(orig.as_mut(), &i0, &p0);
    let mut copy = orig.clone();
    // Which copy is abused while the other one is observed.
    let mut subject = copy.clone();
    if r.chance(0.5) {
        std::mem::swap(&mut subject, &mut orig);
        rec.count("observed_original", 1);
    }
    let segments = r.usize(1, 4);
    let mut any = false;
    for s in 0..segments {
        let n1 = r.usize(1, max / 2);
        let i1 = stim(r, n1);
        let p1 = partition(r, n1);
        let a = render(twin.as_mut(), &i1, &p1);
        let b = render(subject.as_mut(), &i1, &p1);
        rec.count("samples_compared", a.iter().map(|c| c.len() as u64).sum());
        if a.iter().flatten().any(|x| !x.is_finite() || x.abs() > 1.0e6) {
            rec.count("skipped_unbounded", 1);
            return Ok(());
        }
        any |= nontrivial(&a);
        compare(&a, &b, 1.0e-5, 1.0e-5).map_err(|e| format!("segment {} of {}: {} (never cloned vs clone or original)", s, segments, e))?;
        if r.chance(0.1) {
            // The observed unit moves to another thread and back.
            let k = copy.clone();
            subject = std::thread::spawn(move || { drop(k); subject }).join().unwrap();
            rec.count("thread_moves", 1);
        }
        for _ in 0..r.usize(1, 3) {
            if r.chance(0.5) {
                abuse(&mut copy, r, stim);
            } else {
                abuse(&mut orig, r, stim);
            }
            rec.count("interferences", 1);
        }
        if r.chance(0.2) {
            // Clone of clone becomes the subject.
            subject = subject.clone();
            rec.count("reclones", 1);
        }
    }
    if any {
        rec.distinct(&format!("{}{:?}", label, rec.rng.0));
    }
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}
