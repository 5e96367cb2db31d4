//! P12 workload for ThreadSanitizer: clones of one unit rendered, reset, reconfigured and dropped on
//! several threads at once. Only documented sharing devices connect clones, so nothing may race.
use std::sync::Barrier;
use vh::catalog::*;
use vh::*;

static mut RACY: u64 = 0;

fn main() {
    if std::env::var("P12_RACE").is_ok() {
        // Self test: the race detector has to see this.
        let t = std::thread::spawn(|| unsafe {
            for _ in 0..1000 {
                std::ptr::write_volatile(&raw mut RACY, std::ptr::read_volatile(&raw const RACY) + 1);
            }
        });
        unsafe {
            for _ in 0..1000 {
                std::ptr::write_volatile(&raw mut RACY, std::ptr::read_volatile(&raw const RACY) + 1);
            }
        }
        let _ = t.join();
        std::process::exit(0);
    }
    let mut ctx = Ctx::new("P12", "distinct units whose clones were rendered concurrently with nonzero output");
    let entries: Vec<Entry> = all();
    let es = &entries;
    let reps = ctx.scale(3, 60);
    ctx.par("clones", es.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.fork();
        let sr = rate(&mut r);
        let len = r.usize(65, 300);
        let input = e.stim(&mut r, len, sr);
        let mut a = e.build(&mut r.fork(), sr);
        let steps = partition(&mut r, len);
        render(a.as_mut(), &input, &steps);
        let n = r.usize(2, 3);
        let bar = Barrier::new(n);
        let outs = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let mut u = a.clone();
                    let mut q = r.fork();
                    let (input, bar) = (&input, &bar);
                    sc.spawn(move || {
                        let steps = partition(&mut q, len);
                        bar.wait();
                        let o = render(u.as_mut(), input, &steps);
                        if q.chance(0.5) {
                            u.reset();
                        }
                        if q.chance(0.3) {
                            u.set_sample_rate(rate(&mut q));
                        }
                        let mut v = u.clone();
                        render(v.as_mut(), input, &steps);
                        drop(u);
                        o
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        });
        for o in outs {
            let o = o.map_err(|_| format!("rendering thread panicked: {}", e.label()))?;
            rec.count("samples rendered concurrently", o.iter().map(|c| c.len() as u64).sum());
            if nontrivial(&o) {
                rec.distinct(&e.label());
            }
        }
        Ok(())
    });
    ctx.finish()
}
