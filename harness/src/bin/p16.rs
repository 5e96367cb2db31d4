//! P16: observers and shared variables neither lose, invent nor reorder data.
use fundsp::hacker32::*;
use fundsp::shared::{AtomicSynth, AtomicTable, Interpolation};
use fundsp::sequencer::EventId;
use fundsp::ring::Ring;
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use vh::{audio, partition, rate, Chans, Ctx, Rec, Rng, Runner, TICK};

fn value(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::MAX,
        3 => f32::MIN_POSITIVE / 2.0,
        4 => f32::NEG_INFINITY,
        5 => r.f(-1e6, 1e6),
        _ => r.f(-1.0, 1.0),
    }
}

/// Sequential history of Shared, its clones, Var, VarFn and graphs around them.
fn shared_case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let n = r.usize(1, 4);
    let mut model: Vec<f32> = (0..n).map(|_| value(r)).collect();
    let handles: Vec<Vec<Shared>> = model
        .iter()
        .map(|v| {
            let s = shared(*v);
            let c = s.clone();
            let d = c.clone();
            vec![s, c, d]
        })
        .collect();
    let vars: Vec<An<Var>> = handles.iter().map(|h| var(&h[r.below(3)])).collect();
    // Readers: (unit, which variables, function per output).
    type F = fn(f32) -> f32;
    let id: F = |x| x;
    let neg: F = |x| -x;
    let dbl: F = |x| x * 2.0;
    let mut readers: Vec<(Box<dyn AudioUnit>, Vec<(usize, F)>, &str)> = vec![];
    for k in 0..n {
        let h = &handles[k];
        readers.push((Box::new(var(&h[0])), vec![(k, id)], "var"));
        readers.push((Box::new(vars[k].clone()), vec![(k, id)], "var clone"));
        readers.push((Box::new(var_fn(&h[1], |x: f32| x * 2.0)), vec![(k, dbl)], "var_fn"));
        readers.push((Box::new(var_fn(&h[1], |x: f32| (x, -x, x * 2.0))), vec![(k, id), (k, neg), (k, dbl)], "var_fn 3"));
        readers.push((Box::new(var_fn(&h[2], |x: f32| (x, -x, x * 2.0, x, -x))), vec![(k, id), (k, neg), (k, dbl), (k, id), (k, neg)], "var_fn 5"));
        let j = r.below(n);
        readers.push((Box::new(var(&h[2]) | var(&handles[j][0])), vec![(k, id), (j, id)], "stack"));
        readers.push((Box::new(Net::wrap(Box::new(var(&h[2]))) | Net::wrap(Box::new(-var(&handles[j][1])))), vec![(k, id), (j, neg)], "net"));
    }
    let mut runners: Vec<Runner> = readers.iter().map(|x| Runner::new(&*x.0)).collect();
    let steps = r.usize(5, 60);
    let mut log = String::new();
    let (mut writes, mut reads) = (0, 0);
    for _ in 0..steps {
        if r.chance(0.5) {
            let k = r.below(n);
            let v = value(r);
            match r.below(3) {
                0 => handles[k][r.below(3)].set(v),
                1 => handles[k][r.below(3)].set_value(v),
                _ => vars[k].set_value(v),
            }
            model[k] = v;
            writes += 1;
            log.push_str(&format!("w{}={} ", k, v));
        }
        for k in 0..n {
            let j = r.below(3);
            let got = handles[k][j].value();
            if got.to_bits() != model[k].to_bits() || vars[k].value().to_bits() != model[k].to_bits() {
                return Err(format!("variable {} reads {} / {}, latest write {} ({})", k, got, vars[k].value(), model[k], log));
            }
        }
        let q = r.below(readers.len());
        let st = if r.chance(0.3) { TICK } else { r.usize(0, 64) };
        if r.chance(0.05) {
            let (u, f, s) = &readers[q];
            readers[q] = (u.clone(), f.clone(), s);
        }
        if r.chance(0.05) {
            readers[q].0.reset();
        }
        if r.chance(0.05) {
            readers[q].0.set_sample_rate(rate(r));
        }
        let mut out: Chans = vec![vec![]; readers[q].1.len()];
        let (u, f, what) = &mut readers[q];
        runners[q].step(&mut **u, st, &[], &mut out);
        for c in 0..f.len() {
            let want = f[c].1(model[f[c].0]);
            for (i, x) in out[c].iter().enumerate() {
                reads += 1;
                if *x != want {
                    return Err(format!("{} output {} sample {} is {}, latest value {} ({})", what, c, i, x, want, log));
                }
            }
        }
    }
    rec.count("writes", writes);
    rec.count("reads", reads);
    rec.distinct(&log);
    rec.sample = Some(log.chars().take(120).collect());
    Ok(())
}

/// One writer counting up, several readers: every read is a value written, and reads never go back.
fn shared_threads(rec: &mut Rec) -> Result<(), String> {
    let s = shared(0.0);
    let stop = AtomicBool::new(false);
    let n = 200_000u32;
    let seen = AtomicUsize::new(0);
    let started = AtomicUsize::new(0);
    let errs = std::sync::Mutex::new(Vec::<String>::new());
    let table = Arc::new(AtomicTable::new(&[0.0; 64]));
    std::thread::scope(|sc| {
        for k in 0..3 {
            let (s, stop, seen, errs, started, table) = (s.clone(), &stop, &seen, &errs, &started, table.clone());
            sc.spawn(move || {
                let mut unit: Box<dyn AudioUnit> = match k {
                    0 => Box::new(var(&s)),
                    1 => Box::new(var_fn(&s, |x: f32| x)),
                    _ => Box::new(var(&s) >> pass()),
                };
                let mut run = Runner::new(&*unit);
                let mut last = -1.0f32;
                let mut lastt = vec![-1.0f32; 64];
                let mut d = 0;
                started.fetch_add(1, Ordering::SeqCst);
                loop {
                    let ending = stop.load(Ordering::SeqCst);
                    let mut out: Chans = vec![vec![]];
                    run.step(&mut *unit, if d % 3 == 0 { TICK } else { 64 }, &[], &mut out);
                    for x in &out[0] {
                        if *x < last || *x != x.floor() || *x > n as f32 {
                            errs.lock().unwrap().push(format!("reader {} read {} after {}", k, x, last));
                            return;
                        }
                        if *x != last {
                            d += 1;
                        }
                        last = *x;
                    }
                    for i in 0..64 {
                        let x = table.at(i);
                        if x < lastt[i] || x != x.floor() || x > n as f32 {
                            errs.lock().unwrap().push(format!("table entry {} read {} after {}", i, x, lastt[i]));
                            return;
                        }
                        lastt[i] = x;
                    }
                    if ending {
                        if last != n as f32 {
                            errs.lock().unwrap().push(format!("last value {} instead of {}", last, n));
                        }
                        break;
                    }
                }
                seen.fetch_add(d, Ordering::SeqCst);
            });
        }
        while started.load(Ordering::SeqCst) < 3 {
            std::thread::yield_now();
        }
        for i in 1..=n {
            s.set_value(i as f32);
            table.set(i as usize & 63, i as f32);
            if i % 1000 == 0 {
                std::thread::yield_now();
            }
        }
        stop.store(true, Ordering::SeqCst);
    });
    if let Some(e) = errs.lock().unwrap().first() {
        return Err(e.clone());
    }
    rec.count("thread value changes seen", seen.load(Ordering::SeqCst) as u64);
    if seen.load(Ordering::SeqCst) > 30 {
        rec.distinct(&format!("threads {}", seen.load(Ordering::SeqCst)));
    }
    Ok(())
}

fn timer_case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let s = shared(r.f(-5.0, 5.0));
    let shape = r.below(5);
    let (mut unit, inputs): (Box<dyn AudioUnit>, usize) = match shape {
        0 => (Box::new(timer(&s)), 0),
        1 => (Box::new(timer(&s) | pass()), 1),
        2 => (Box::new(pass() | timer(&s)), 1),
        3 => (Box::new(Net::wrap(Box::new(pass())) | Net::wrap(Box::new(timer(&s)))), 1),
        _ => (Box::new((pass() | timer(&s)) >> (pass() * 1.0)), 1),
    };
    if s.value() != 0.0 {
        return Err(format!("timer starts at {}", s.value()));
    }
    let mut sr = 44100.0;
    let mut t = 0.0f64;
    let n = r.usize(10, 200);
    let len = n * 64;
    let x: Chans = (0..inputs).map(|_| audio(r, len)).collect();
    let mut run = Runner::new(&*unit);
    let mut out: Chans = vec![vec![]; inputs];
    let mut log = format!("shape {} ", shape);
    for _ in 0..n {
        if r.chance(0.05) {
            sr = if r.chance(0.2) { rate(r) / 1.001 } else { rate(r) };
            unit.set_sample_rate(sr);
            log.push_str(&format!("sr {} ", sr));
        }
        if r.chance(0.04) {
            unit.reset();
            t = 0.0;
            log.push_str("reset ");
            if s.value() != 0.0 {
                return Err(format!("timer reads {} after reset ({})", s.value(), log));
            }
        }
        let st = if r.chance(0.2) { TICK } else { r.usize(0, 64) };
        run.step(&mut *unit, st, &x, &mut out);
        t += if st == TICK { 1.0 } else { st as f64 } / sr;
        let got = s.value() as f64;
        if (got - t).abs() > 1e-9 + t * 2e-7 {
            return Err(format!("timer reads {} after {} seconds ({})", got, t, log));
        }
        rec.count("timer reads", 1);
    }
    for c in 0..inputs {
        for i in 0..out[c].len() {
            if out[c][i] != x[c][i] {
                return Err(format!("audio beside a timer changed at {}: {} vs {}", i, out[c][i], x[c][i]));
            }
        }
    }
    rec.distinct(&format!("{} {} {}", shape, n, t));
    rec.sample = Some(log.chars().take(120).collect());
    Ok(())
}

#[derive(Clone)]
struct MeterModel {
    meter: Meter,
    state: f64,
    sr: f64,
}

impl MeterModel {
    fn tick(&mut self, x: f32) {
        let x = x as f64;
        match self.meter {
            Meter::Sample => self.state = x,
            Meter::Peak(t) => self.state = f64::max(self.state * 0.5f64.powf(1.0 / (t * self.sr)), x.abs()),
            Meter::Rms(t) => {
                let k = 0.5f64.powf(1.0 / (t * self.sr));
                self.state = self.state * k + x * x * (1.0 - k);
            }
        }
    }
    fn level(&self) -> f64 {
        match self.meter {
            Meter::Rms(_) => self.state.sqrt(),
            _ => self.state,
        }
    }
}

fn meter_case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let m = match r.below(5) {
        0 => Meter::Sample,
        1 | 2 => Meter::Peak(r.log(0.0005, 0.5)),
        _ => Meter::Rms(r.log(0.0005, 0.5)),
    };
    let s = shared(0.25);
    let s2 = shared(0.25);
    let shape = r.below(5);
    // Channels: metering output index (None: only in shared).
    let (mut unit, inputs, meter_out): (Box<dyn AudioUnit>, usize, Option<usize>) = match shape {
        0 => (Box::new(monitor(&s, m)), 1, None),
        1 => (Box::new(meter(m)), 1, Some(0)),
        2 => (Box::new(monitor(&s, m) ^ meter(m)), 1, Some(1)),
        3 => (Box::new(pass() | monitor(&s, m)), 2, None),
        _ => (Box::new(Net::wrap(Box::new(monitor(&s, m)))), 1, None),
    };
    let has_mon = shape != 1;
    // A second monitor to see that they do not disturb each other.
    let mut other = monitor(&s2, Meter::Sample);
    let mut model = MeterModel { meter: m, state: 0.0, sr: 44100.0 };
    let len = r.usize(100, 4000);
    let x: Chans = (0..inputs).map(|_| audio(r, len)).collect();
    let mon_in = inputs - 1;
    let outs = unit.outputs();
    let mut run = Runner::new(&*unit);
    let mut out: Chans = vec![vec![]; outs];
    let mut expect_meter: Vec<f64> = vec![];
    let mut log = format!("shape {} meter {:?} ", shape, match m { Meter::Sample => 0.0, Meter::Peak(t) => t, Meter::Rms(t) => -t });
    // The smoothing coefficient is single precision.
    let ts = match m { Meter::Sample => 0.0, Meter::Peak(t) | Meter::Rms(t) => t * 192000.0 };
    let tol = |v: f64| 1e-7 + v.abs() * (5e-4 + ts * 1.5e-7);
    for st in partition(r, len) {
        if r.chance(0.02) {
            model.sr = rate(r);
            unit.set_sample_rate(model.sr);
            log.push_str(&format!("sr {} ", model.sr));
        }
        if r.chance(0.02) {
            unit.reset();
            model.state = 0.0;
            log.push_str("reset ");
        }
        if r.chance(0.02) {
            unit = unit.clone();
        }
        let pos = run.pos;
        run.step(&mut *unit, st, &x, &mut out);
        let k = if st == TICK { 1 } else { st };
        for i in 0..k {
            model.tick(x[mon_in][pos + i]);
            expect_meter.push(model.level());
        }
        let v = r.f(-1.0, 1.0);
        other.tick(&[v].into());
        if s2.value() != v {
            return Err(format!("independent monitor reads {} instead of {}", s2.value(), v));
        }
        if k > 0 && has_mon {
            let got = s.value() as f64;
            rec.count("monitor reads", 1);
            if !((got - model.level()).abs() <= tol(model.level())) {
                return Err(format!("monitor reads {} after sample {}, statistic {} ({})", got, pos + k, model.level(), log));
            }
        }
    }
    if let Some(c) = meter_out {
        for i in 0..len {
            if !((out[c][i] as f64 - expect_meter[i]).abs() <= tol(expect_meter[i])) {
                return Err(format!("meter outputs {} at sample {}, statistic {} ({})", out[c][i], i, expect_meter[i], log));
            }
        }
        rec.count("meter samples", len as u64);
    }
    let through: Vec<(usize, usize)> = match shape {
        0 | 2 | 4 => vec![(0, 0)],
        3 => vec![(0, 0), (1, 1)],
        _ => vec![],
    };
    for (a, b) in through {
        for i in 0..len {
            if out[b][i].to_bits() != x[a][i].to_bits() {
                return Err(format!("monitored audio changed at {}: {} vs {}", i, out[b][i], x[a][i]));
            }
        }
    }
    rec.distinct(&log);
    rec.sample = Some(log.chars().take(120).collect());
    Ok(())
}

fn snoop_case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let cap = *r.pick(&[1usize, 2, 63, 64, 65, 100, 128, 1000, 4096, 5000, 20000]);
    let (mut front, back) = snoop(cap);
    if front.capacity() < cap {
        return Err(format!("capacity {} requested {}", front.capacity(), cap));
    }
    let netted = r.chance(0.4);
    let mut unit: Box<dyn AudioUnit> = if netted { Box::new(Net::wrap(Box::new(back))) } else { Box::new(back) };
    let burst = r.chance(0.2);
    let len = if burst { r.usize(1000, 60000) } else { r.usize(10, 6000) };
    let x: Chans = vec![(0..len).map(|i| (i + 1) as f32).collect()];
    let mut run = Runner::new(&*unit);
    let mut out: Chans = vec![vec![]];
    // Samples sent in whole buffers, samples in the partial buffer, samples received.
    let mut sent: Vec<f32> = vec![];
    let mut part: Vec<f32> = vec![];
    let mut got = 0usize;
    let p_get = r.log(0.002, 1.0);
    let p_reset = if r.chance(0.3) { 0.01 } else { 0.0 };
    for st in partition(r, len) {
        let pos = run.pos;
        run.step(&mut *unit, st, &x, &mut out);
        let k = if st == TICK { 1 } else { st };
        for i in 0..k {
            part.push(x[0][pos + i]);
            if part.len() == 64 {
                sent.append(&mut part);
            }
        }
        if r.chance(p_reset) {
            unit.reset();
            part.clear();
        }
        // Stay within what the channel can hold.
        if r.chance(p_get) || sent.len() - got > 64 * 500 {
            if r.chance(0.5) {
                front.update();
                got = sent.len();
            } else {
                match front.get() {
                    None => {
                        if got != sent.len() {
                            return Err(format!("snoop delivered {} of {} samples", got, sent.len()));
                        }
                    }
                    Some(b) => {
                        if got + 64 > sent.len() {
                            return Err("snoop delivered a buffer that was not sent".into());
                        }
                        if b.size() != 64 || b.len() != 64 {
                            return Err(format!("buffer size {}", b.size()));
                        }
                        for i in 0..64 {
                            if b.at(i) != sent[got + i] {
                                return Err(format!("snoop sample {} is {}, sent {}", got + i, b.at(i), sent[got + i]));
                            }
                        }
                        got += 64;
                    }
                }
            }
            if front.total() != got as u64 {
                return Err(format!("total {} received {}", front.total(), got));
            }
            for j in 0..front.capacity() {
                let want = if j < got { sent[got - 1 - j] } else { 0.0 };
                if front.at(j) != want {
                    return Err(format!("at({}) is {}, should be {} of {} samples, capacity {}", j, front.at(j), want, got, front.capacity()));
                }
            }
            rec.count("snoop inspections", 1);
        }
    }
    for i in 0..len {
        if out[0][i] != x[0][i] {
            return Err(format!("snooped audio changed at {}: {} vs {}", i, out[0][i], x[0][i]));
        }
    }
    if got > 0 {
        rec.distinct(&format!("{} {} {}", cap, len, got));
    }
    rec.sample = Some(format!("capacity {} samples {} received {}", cap, len, got));
    Ok(())
}

/// Frontend much slower than the audio side: audio is unaffected, and what arrives is in order.
fn snoop_overrun(rec: &mut Rec) -> Result<(), String> {
    let (mut front, back) = snoop(256);
    let mut unit: Box<dyn AudioUnit> = Box::new(back);
    let len = 64 * rec.rng.usize(1200, 2500);
    let x: Chans = vec![(0..len).map(|i| (i + 1) as f32).collect()];
    let mut run = Runner::new(&*unit);
    let mut out: Chans = vec![vec![]];
    let mut last = -1i64;
    let mut blocks = 0;
    let mut drain = |front: &mut Snoop, last: &mut i64| -> Result<(), String> {
        while let Some(b) = front.get() {
            let first = b.at(0) as i64 - 1;
            if first % 64 != 0 || first / 64 <= *last {
                return Err(format!("snoop buffer starts at sample {} after buffer {}", first, last));
            }
            for i in 0..64 {
                if b.at(i) as i64 - 1 != first + i as i64 {
                    return Err(format!("torn snoop buffer at {}", first));
                }
            }
            *last = first / 64;
            blocks += 1;
        }
        Ok(())
    };
    let ticks = rec.rng.chance(0.5);
    for k in 0..len / 64 {
        if ticks {
            for _ in 0..64 {
                run.step(&mut *unit, TICK, &x, &mut out);
            }
        } else {
            run.step(&mut *unit, 64, &x, &mut out);
        }
        if k == 1100 && rec.rng.chance(0.5) {
            drain(&mut front, &mut last)?;
        }
    }
    if rec.rng.chance(0.5) {
        // One update receives everything that waits.
        front.update();
        if front.get().is_some() {
            return Err("buffers remain after an update of the snoop".into());
        }
    }
    drain(&mut front, &mut last)?;
    // The stream continues in whole buffers after the overrun.
    let more: Chans = vec![(0..640).map(|i| (i + 1 + len) as f32).collect()];
    let mut run2 = Runner::new(&*unit);
    let mut out2: Chans = vec![vec![]];
    for _ in 0..640 {
        run2.step(&mut *unit, TICK, &more, &mut out2);
    }
    drain(&mut front, &mut last)?;
    if last != (len / 64 + 9) as i64 || out2[0] != more[0] {
        return Err(format!("the snoop did not recover from the overrun: last buffer {} of {}", last, len / 64 + 10));
    }
    if out[0] != x[0] {
        return Err("audio changed in overrun".into());
    }
    rec.count("overrun buffers", blocks);
    rec.distinct(&format!("overrun {}", len));
    Ok(())
}

fn snoop_threads(rec: &mut Rec) -> Result<(), String> {
    let (mut front, back) = snoop(512);
    let len = 64 * 700usize;
    let done = AtomicBool::new(false);
    let mut err = None;
    let mut got = 0usize;
    let mut polls = 0usize;
    let delay = rec.rng.usize(0, 300);
    std::thread::scope(|sc| {
        let d = &done;
        sc.spawn(move || {
            let mut unit: Box<dyn AudioUnit> = Box::new(back);
            let x: Chans = vec![(0..len).map(|i| (i + 1) as f32).collect()];
            let mut run = Runner::new(&*unit);
            let mut out: Chans = vec![vec![]];
            for k in 0..len / 64 {
                run.step(&mut *unit, 64, &x, &mut out);
                if k % 20 == 0 {
                    std::thread::yield_now();
                }
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
            }
            d.store(true, Ordering::SeqCst);
        });
        loop {
            let ending = done.load(Ordering::SeqCst);
            polls += 1;
            while let Some(b) = front.get() {
                for i in 0..64 {
                    if b.at(i) != (got + i + 1) as f32 && err.is_none() {
                        err = Some(format!("sample {} is {}", got + i, b.at(i)));
                    }
                }
                got += 64;
                for j in [0, 5, 200, 511] {
                    let want = if j < got { (got - j) as f32 } else { 0.0 };
                    if front.at(j) != want && err.is_none() {
                        err = Some(format!("at({}) is {} not {}", j, front.at(j), want));
                    }
                }
            }
            if ending {
                break;
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    if got != len {
        return Err(format!("{} of {} samples arrived", got, len));
    }
    rec.count("snoop thread polls", polls as u64);
    rec.distinct(&format!("{} {}", polls, delay));
    Ok(())
}

fn ring_case<N: Size<f32>>(rec: &mut Rec, ch: usize) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let cap = r.usize(2, 300);
    let (tx, ring) = Ring::<N>::new(cap);
    let netted = r.chance(0.3);
    let mut unit: Box<dyn AudioUnit> = if netted { Box::new(Net::wrap(Box::new(ring))) } else { Box::new(ring) };
    // A Net is cloned neither when it is wrapped nor when it is rendered.
    let mut q: VecDeque<Vec<f32>> = VecDeque::new();
    let mut run = Runner::new(&*unit);
    let mut next = 1.0f32;
    let (mut full, mut under, mut through) = (0, 0, 0);
    for _ in 0..r.usize(10, 150) {
        let k = if r.chance(0.1) { cap + 5 } else { r.usize(0, 80) };
        for _ in 0..k {
            let v: Vec<f32> = (0..ch).map(|c| next + c as f32 * 0.25).collect();
            let frame = Frame::<f32, N>::generate(|i| v[i]);
            match tx.try_send(frame) {
                Ok(_) => {
                    if q.len() >= cap * 2 + 2 {
                        return Err(format!("accepted {} frames, capacity {}", q.len() + 1, cap));
                    }
                    q.push_back(v);
                    next += 1.0;
                }
                Err(_) => {
                    if q.len() < cap {
                        return Err(format!("rejected a frame with {} of {} in the ring", q.len(), cap));
                    }
                    full += 1;
                }
            }
        }
        if r.chance(0.05) {
            unit.reset();
        }
        if r.chance(0.05) {
            unit.set_sample_rate(rate(r));
        }
        let st = if r.chance(0.3) { TICK } else { r.usize(0, 64) };
        let mut out: Chans = vec![vec![]; ch];
        run.step(&mut *unit, st, &[], &mut out);
        for i in 0..out[0].len() {
            let want = q.pop_front();
            if want.is_some() {
                through += 1;
            } else {
                under += 1;
            }
            for c in 0..ch {
                let w = want.as_ref().map(|v| v[c]).unwrap_or(0.0);
                if out[c][i] != w {
                    return Err(format!("ring delivers {} on channel {}, expected {} (capacity {})", out[c][i], c, w, cap));
                }
            }
        }
    }
    rec.count("ring frames", through);
    rec.count("ring full", full);
    rec.count("ring underruns", under);
    rec.distinct(&format!("{} {} {} {}", ch, cap, through, under));
    rec.sample = Some(format!("{} channels capacity {} delivered {} underruns {} rejected {}", ch, cap, through, under, full));
    Ok(())
}

fn ring_threads(rec: &mut Rec) -> Result<(), String> {
    let cap = rec.rng.usize(2, 500);
    let (tx, ring) = Ring::<U2>::new(cap);
    let n = 40_000usize;
    let mut err = None;
    let (mut got, mut zeros) = (0usize, 0usize);
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let mut i = 1;
            while i <= n {
                if tx.try_send([i as f32, -(i as f32)].into()).is_ok() {
                    i += 1;
                } else {
                    std::thread::yield_now();
                }
            }
        });
        let mut unit: Box<dyn AudioUnit> = Box::new(ring);
        let mut run = Runner::new(&*unit);
        let mut k = 0u64;
        while got < n && err.is_none() && k < 100_000_000 {
            let mut out: Chans = vec![vec![], vec![]];
            k += 1;
            run.step(&mut *unit, if k % 5 == 0 { TICK } else { 64 }, &[], &mut out);
            for i in 0..out[0].len() {
                let (a, b) = (out[0][i], out[1][i]);
                if a == 0.0 && b == 0.0 {
                    zeros += 1;
                } else if a == (got + 1) as f32 && b == -a {
                    got += 1;
                } else {
                    err = Some(format!("frame ({}, {}) after {}", a, b, got));
                }
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    if got != n {
        return Err(format!("{} of {} frames arrived", got, n));
    }
    rec.count("ring thread underruns", zeros as u64);
    rec.distinct(&format!("{} {}", cap, zeros));
    Ok(())
}

fn atomic_case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let len = 1usize << r.usize(2, 8);
    let mut model: Vec<f32> = (0..len).map(|_| r.f(-1.0, 1.0)).collect();
    let table = Arc::new(AtomicTable::new(&model));
    if table.len() != len {
        return Err(format!("table length {} of {}", table.len(), len));
    }
    let mut synth = AtomicSynth::<f32>::new(table.clone());
    let mode = r.below(3);
    synth.set_interpolation(match mode {
        0 => Interpolation::Nearest,
        1 => Interpolation::Linear,
        _ => Interpolation::Cubic,
    });
    let mut unit: Box<dyn AudioUnit> = Box::new(An(synth));
    let sr = rate(r);
    unit.set_sample_rate(sr);
    let mut phase = 0.0f64;
    let total = r.usize(100, 1500);
    // Frequency well below the table rate at first, then anything.
    let f0 = r.log(1.0, sr * 0.4) as f32;
    let x: Chans = vec![(0..total).map(|_| f0).collect()];
    let mut run = Runner::new(&*unit);
    let mut worst = 0.0f64;
    for st in partition(r, total) {
        if r.chance(0.3) {
            for _ in 0..r.usize(1, 20) {
                let i = r.below(len);
                let v = r.f(-1.0, 1.0);
                table.set(i, v);
                model[i] = v;
            }
        }
        for i in 0..len {
            if table.at(i).to_bits() != model[i].to_bits() {
                return Err(format!("table entry {} reads {}, latest {}", i, table.at(i), model[i]));
            }
        }
        if r.chance(0.03) {
            unit.reset();
            phase = 0.0;
        }
        let mut out: Chans = vec![vec![]];
        run.step(&mut *unit, st, &x, &mut out);
        for y in &out[0] {
            phase += f0 as f64 / sr;
            phase -= phase.floor();
            // Anything the table can give near the phase, allowing for single precision phase.
            let at = |k: i64| model[k.rem_euclid(len as i64) as usize] as f64;
            let eval = |p: f64| -> Vec<f64> {
                let k = p.floor() as i64;
                let w = p - p.floor();
                match mode {
                    0 => vec![at(k), at((p + 0.5).floor() as i64)],
                    1 => vec![at(k) * (1.0 - w) + at(k + 1) * w],
                    _ => {
                        let (a, b, c, d) = (at(k - 1), at(k), at(k + 1), at(k + 2));
                        vec![b + w / 2.0 * (c - a + w * (2.0 * a - 5.0 * b + 4.0 * c - d + w * (3.0 * (b - c) + d - a)))]
                    }
                }
            };
            let slack = len as f64 * 2e-4;
            let p = phase * len as f64;
            let mut cand: Vec<f64> = vec![];
            for d in [-1.0, -0.5, 0.0, 0.5, 1.0] {
                cand.extend(eval(p + d * slack));
            }
            let y = *y as f64;
            let best = cand.iter().map(|c| (c - y).abs()).fold(f64::MAX, f64::min);
            worst = worst.max(best);
            if !(best <= 1e-5 + if mode == 0 { 0.0 } else { slack * 3.0 }) {
                return Err(format!("atomic synth mode {} outputs {} at phase {} of {}: expected {:?}", mode, y, p, len, cand));
            }
            rec.count("atomic synth samples", 1);
        }
    }
    rec.distinct(&format!("{} {} {}", len, mode, f0));
    Ok(())
}

fn ids(rec: &mut Rec) -> Result<(), String> {
    let mut all: Vec<u64> = vec![];
    let mut ev: Vec<EventId> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                sc.spawn(|| {
                    let mut a = vec![];
                    let mut b = vec![];
                    for _ in 0..20000 {
                        a.push(NodeId::new().value());
                        b.push(EventId::new());
                    }
                    (a, b)
                })
            })
            .collect();
        for h in hs {
            let (a, b) = h.join().unwrap();
            all.extend(a);
            ev.extend(b);
        }
    });
    let n = all.len();
    let s: HashSet<u64> = all.into_iter().collect();
    if s.len() != n {
        return Err(format!("{} of {} node ids are unique", s.len(), n));
    }
    let n = ev.len();
    let s: HashSet<EventId> = ev.into_iter().collect();
    if s.len() != n {
        return Err(format!("{} of {} event ids are unique", s.len(), n));
    }
    rec.count("ids", n as u64 * 2);
    rec.distinct("ids");
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P16", "a history counts when values changed and were observed: writes followed by reads, timer runs, metered samples, snooped buffers or ring frames that arrived");
    let n = c.scale(10000, 200000);
    c.par("shared", n, |_, rec| shared_case(rec));
    c.par("timer", n, |_, rec| timer_case(rec));
    c.par("meter", n * 2, |_, rec| meter_case(rec));
    c.par("snoop", n, |_, rec| snoop_case(rec));
    c.par("ring", n, |i, rec| match i % 4 {
        0 => ring_case::<U1>(rec, 1),
        1 => ring_case::<U2>(rec, 2),
        2 => ring_case::<U3>(rec, 3),
        _ => ring_case::<U9>(rec, 9),
    });
    c.par("atomic", n, |_, rec| atomic_case(rec));
    let m = c.scale(24, 400);
    c.par("snoop_overrun", m, |_, rec| snoop_overrun(rec));
    c.seq("shared_threads", m, |_, rec| shared_threads(rec));
    c.seq("snoop_threads", m, |_, rec| snoop_threads(rec));
    c.seq("ring_threads", m, |_, rec| ring_threads(rec));
    c.seq("ids", Ord::min(m, 20), |_, rec| ids(rec));
    c.assumptions.push("a Snoop frontend that lags by more than 500 buffers may lose whole buffers (bounded channel), but never order".into());
    c.finish();
}
