//! Random Sequencer histories against the interpreter. Used for the plain Sequencer (P08) and frontend/backend (P09).
use crate::dunit::*;
use crate::seqmodel::*;
use crate::*;
use fundsp::hacker32::*;
use fundsp::sequencer::{EventId, Fade};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Plain,
    /// Continue with a clone now and then, while the original goes its own way.
    Cloned,
    /// Frontend and backend.
    Split,
    /// Backend placed in a Net.
    Net,
    /// Backend placed in a Net that has a backend of its own.
    NetBackend,
}

pub fn case(rec: &mut Rec, mode: Mode) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let outs = r.usize(1, 3);
    let replay = r.chance(0.5);
    let mut m = SeqModel::new(replay, outs);
    let mut seq = Sequencer::new(replay, outs);
    let mut ids: Vec<EventId> = vec![];
    let mut log: Vec<String> = vec![format!("{:?} Sequencer::new({}, {})", mode, replay, outs)];
    let mut back: Option<Box<dyn AudioUnit>> = None;
    if r.chance(0.6) {
        let sr = rate(&mut r);
        seq.set_sample_rate(sr);
        m.set_rate(sr);
        log.push(format!("rate {}", sr));
    }
    let rounds = r.usize(2, 14);
    // A backend may be attached after some pushes and renders.
    let plain = mode == Mode::Plain || mode == Mode::Cloned;
    let attach = if plain { usize::MAX } else { r.below(3) };
    let mut max_live = 0;
    for round in 0..rounds {
        if round == attach {
            let mut b: Box<dyn AudioUnit> = Box::new(seq.backend());
            if mode == Mode::Net || mode == Mode::NetBackend {
                let mut net = Net::wrap(b);
                if r.chance(0.5) {
                    let sr = rate(&mut r);
                    let (now, sd) = (m.time(), 2.0 / Ord::min(sr as u64, m.rate as u64) as f64);
                    net.set_sample_rate(sr);
                    net.allocate();
                    m.set_rate(sr);
                    if m.ev.iter().any(|e| m.murky(e.start) || m.murky(e.end) || (e.end - now).abs() < sd || (e.start - now).abs() < sd) {
                        return Ok(());
                    }
                    log.push(format!("net rate {}", sr));
                } else {
                    net.set_sample_rate(m.rate);
                }
                b = if mode == Mode::NetBackend { Box::new(net.backend()) } else { Box::new(net) };
            }
            back = Some(b);
            log.push("backend".into());
        }
        for _ in 0..r.below(5) {
            let sd = 1.0 / m.rate;
            let now = m.time();
            match r.below(12) {
                0..=6 => {
                    // Push.
                    let seed = r.u64();
                    let frac = if r.chance(0.4) { 0.0 } else if r.chance(0.5) { r.uni(0.02, 0.45) } else { r.uni(0.55, 0.98) };
                    let lo = if r.chance(0.2) { -150 } else { 0 };
                    let s0 = r.int(lo, 300) as f64 + frac;
                    let d = match r.below(8) {
                        0 => f64::INFINITY,
                        1 => r.usize(0, 3) as f64,
                        2 => r.usize(1, 60) as f64 + *r.pick(&[0.0, 0.3, 0.7]),
                        _ => r.usize(10, 500) as f64 + *r.pick(&[0.0, 0.25, 0.6]),
                    } * sd;
                    let dd = if d.is_finite() { d } else { 300.0 * sd };
                    let fi = if r.chance(0.4) { 0.0 } else { r.uni(0.0, 1.0) * dd };
                    let fo = if r.chance(0.4) { 0.0 } else { r.uni(0.0, 1.0) * dd };
                    let smooth = r.chance(0.5);
                    let fade = if smooth { Fade::Smooth } else { Fade::Power };
                    let mut unit = DRef::new(seed, 0, outs, true);
                    unit.set_rate(m.rate);
                    let u = DUnit::boxed(seed, 0, outs);
                    let kind = r.below(3);
                    let (start, end, id);
                    match kind {
                        0 => {
                            start = now + s0 * sd;
                            end = start + d;
                            if fi > end - start || fo > end - start {
                                continue;
                            }
                            id = seq.push(start, end, fade, fi, fo, u);
                        }
                        1 => {
                            let (a, b) = (s0 * sd, s0 * sd + d);
                            if fi > b - a || fo > b - a {
                                continue;
                            }
                            start = now + a;
                            end = now + b;
                            id = seq.push_relative(a, b, fade, fi, fo, u);
                        }
                        _ => {
                            start = now + s0 * sd;
                            end = start + d;
                            if fi > end - start || fo > end - start {
                                continue;
                            }
                            id = seq.push_duration(start, d, fade, fi, fo, u);
                        }
                    }
                    if ids.contains(&id) {
                        return Err("event id not unique".into());
                    }
                    log.push(format!("push#{} kind {} start {:+.2} len {:.2} fi {:.2} fo {:.2} smooth {}", ids.len(), kind, s0, d / sd, fi / sd, fo / sd, smooth));
                    ids.push(id);
                    m.ev.push(Ev { unit, start, end, smooth, fi, fo, done: false });
                    if m.murky(start) || m.murky(end) {
                        return Ok(());
                    }
                    rec.count("pushes", 1);
                }
                7 | 8 | 9 => {
                    if ids.is_empty() {
                        continue;
                    }
                    let k = r.below(ids.len());
                    if m.ended(k) && replay {
                        continue;
                    }
                    let frac = *r.pick(&[0.0, 0.2, 0.75]);
                    let e = now + (r.usize(1, 300) as f64 + frac) * sd;
                    let old = m.ev[k].end;
                    let new = if e < old { e } else { old };
                    if !new.is_finite() || (m.ended(k) && new > old) {
                        continue;
                    }
                    if !m.started(k) && new < now + sd {
                        continue;
                    }
                    let fo = if r.chance(0.3) { 0.0 } else { r.uni(0.0, 300.0) * sd };
                    if r.chance(0.5) {
                        seq.edit(ids[k], new, fo);
                        m.ev[k].end = new;
                    } else {
                        seq.edit_relative(ids[k], new - now, fo);
                        m.ev[k].end = now + (new - now);
                    }
                    m.ev[k].fo = fo;
                    if m.murky(m.ev[k].end) {
                        return Ok(());
                    }
                    log.push(format!("edit#{} end {:+.2} fo {:.2}", k, (new - now) / sd, fo / sd));
                    rec.count("edits", 1);
                }
                10 => {
                    if r.chance(0.5) {
                        match &mut back {
                            Some(b) if r.chance(0.4) => b.reset(),
                            _ => seq.reset(),
                        }
                        m.reset();
                        if m.ev.iter().any(|e| m.murky(e.start) || m.murky(e.end)) {
                            return Ok(());
                        }
                        if !replay {
                            ids.clear();
                            m.ev.clear();
                        }
                        log.push("reset".into());
                        rec.count("resets", 1);
                    }
                }
                _ => {
                    if r.chance(0.3) && mode != Mode::NetBackend {
                        let sr = if r.chance(0.2) { m.rate * *r.pick(&[0.999, 1.001, 1.01]) } else { rate(&mut r) };
                        // Event boundaries next to the change are a matter of rounding.
                        if m.ev.iter().any(|e| (e.end - now).abs() < 2.0 * sd || (e.start - now).abs() < 2.0 * sd) {
                            continue;
                        }
                        match &mut back {
                            Some(b) => b.set_sample_rate(sr),
                            None => seq.set_sample_rate(sr),
                        }
                        m.set_rate(sr);
                        let sd = 1.0 / sr;
                        if m.ev.iter().any(|e| m.murky(e.start) || m.murky(e.end) || (e.end - now).abs() < 2.0 * sd || (e.start - now).abs() < 2.0 * sd) {
                            return Ok(());
                        }
                        log.push(format!("rate {}", sr));
                        rec.count("rate_changes", 1);
                    }
                }
            }
        }
        if mode == Mode::Cloned && r.chance(0.5) {
            let mut copy = seq.clone();
            let into_copy = r.chance(0.5);
            if into_copy {
                std::mem::swap(&mut copy, &mut seq);
            }
            let n = r.usize(1, 300);
            let p = partition(&mut r, n);
            match r.below(4) {
                0 => copy.reset(),
                1 => drop(copy),
                2 => {
                    for id in &ids {
                        copy.edit_relative(*id, 1.0 / m.rate, 0.0);
                    }
                    render(&mut copy, &[], &p);
                }
                _ => {
                    render(&mut copy, &[], &p);
                }
            }
            rec.count("continued_with_clone_or_original", 1);
            log.push(if into_copy { "continue with a clone" } else { "a clone goes its own way" }.into());
        }
        rec.ctx = log.join("; ");
        let n = r.usize(1, 260);
        let steps = partition(&mut r, n);
        let unit: &mut dyn AudioUnit = match &mut back {
            Some(b) => b.as_mut(),
            None => &mut seq,
        };
        let got = render(unit, &[], &steps);
        let mut want: Chans = vec![vec![]; outs];
        for _ in 0..n {
            let live = m.ev.iter().filter(|e| !e.done && e.start < m.time()).count();
            max_live = Ord::max(max_live, live);
            let y = m.tick();
            for c in 0..outs {
                want[c].push(y[c]);
            }
        }
        log.push(format!("render {}", n));
        rec.ctx = log.join("; ");
        rec.count("samples", n as u64);
        rec.count("blocks", steps.len() as u64);
        if nontrivial(&want) {
            rec.distinct(&rec.ctx.clone());
        }
        let amp = 1.0 + max_live as f64;
        compare(&want, &got, 1.5e-3 * amp, 0.0).map_err(|e| format!("{} (interpreter vs sequencer)", e))?;
        if plain && (seq.time() - m.time()).abs() > 1e-7 {
            return Err(format!("time() {} after {} seconds", seq.time(), m.time()));
        }
    }
    rec.count(&format!("max_simultaneous_{}", Ord::min(max_live, 6)), 1);
    rec.sample = Some(rec.ctx.chars().take(300).collect());
    Ok(())
}
