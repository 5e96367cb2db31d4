//! P11: rendering never allocates or frees memory.
use fundsp::hacker32::*;
use fundsp::net::NodeId;
use fundsp::sequencer::{EventId, Fade};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vh::catalog::{all, Entry, SHARED};
use vh::gen::Gen;
use vh::{partition, stimuli, Ctx, Kind, Rec, Rng, TICK};

struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
}

fn note(free: bool) {
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    if armed {
        if free {
            FREES.with(|a| a.set(a.get() + 1));
        } else {
            ALLOCS.with(|a| a.set(a.get() + 1));
        }
        if TRACE.with(|t| t.get()) {
            ARMED.with(|a| a.set(false));
            eprintln!("{} at\n{}", if free { "free" } else { "alloc" }, std::backtrace::Backtrace::force_capture());
            ARMED.with(|a| a.set(true));
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(false);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(true);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(false);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(false);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Run `f` as the audio thread does.
fn armed<R>(rec: &mut Rec, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    ALLOCS.with(|a| a.set(0));
    FREES.with(|a| a.set(0));
    TRACE.with(|t| t.set(std::env::var("TRACE").is_ok()));
    ARMED.with(|a| a.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.with(|a| a.set(false));
    let (a, d) = (ALLOCS.with(|a| a.get()), FREES.with(|a| a.get()));
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(r) => {
            rec.count("armed_calls", 1);
            if a + d > 0 {
                return Err(format!("{}: {} allocations and {} deallocations on the audio thread", what, a, d));
            }
            Ok(r)
        }
    }
}

struct Io {
    ib: BufferVec,
    ob: BufferVec,
    fi: Vec<f32>,
    fo: Vec<f32>,
}

impl Io {
    fn new(u: &dyn AudioUnit) -> Io {
        Io { ib: BufferVec::new(u.inputs()), ob: BufferVec::new(u.outputs()), fi: vec![0.0; u.inputs()], fo: vec![0.0; u.outputs()] }
    }
    fn step(&mut self, rec: &mut Rec, u: &mut dyn AudioUnit, s: usize, x: &[Vec<f32>], pos: usize) -> Result<usize, String> {
        if s == TICK {
            for c in 0..self.fi.len() {
                self.fi[c] = x[c][pos];
            }
            armed(rec, "tick", || u.tick(&self.fi, &mut self.fo))?;
            Ok(1)
        } else {
            for c in 0..self.fi.len() {
                self.ib.channel_f32_mut(c)[..s].copy_from_slice(&x[c][pos..pos + s]);
            }
            let (a, b) = (self.ib.buffer_ref(), &mut self.ob.buffer_mut());
            armed(rec, &format!("process({})", s), || u.process(s, &a, b))?;
            Ok(s)
        }
    }
    fn run(&mut self, rec: &mut Rec, u: &mut dyn AudioUnit, steps: &[usize], x: &[Vec<f32>]) -> Result<(), String> {
        let mut pos = 0;
        for &s in steps {
            pos += self.step(rec, u, s, x, pos)?;
        }
        rec.count("samples", pos as u64);
        Ok(())
    }
}

fn setting(r: &mut Rng) -> Setting {
    match r.below(6) {
        0 => Setting::center(r.lf(100.0, 3000.0)),
        1 => Setting::center_q(r.lf(100.0, 3000.0), r.lf(0.3, 3.0)),
        2 => Setting::value(r.f(-1.0, 1.0)),
        3 => Setting::pan(r.f(-1.0, 1.0)),
        4 => Setting::center_q_gain(r.lf(100.0, 3000.0), 1.0, 2.0),
        _ => Setting::time(r.f(0.001, 0.01)),
    }
}

/// Render, reset, render, set, render.
fn life(rec: &mut Rec, r: &mut Rng, u: &mut dyn AudioUnit, x: &[Vec<f32>], len: usize) -> Result<(), String> {
    u.allocate();
    let mut io = Io::new(u);
    let p = partition(r, len);
    io.run(rec, u, &p, x)?;
    armed(rec, "reset", || u.reset())?;
    let p = partition(r, len);
    io.run(rec, u, &p, x)?;
    for _ in 0..2 {
        let s = match r.below(3) {
            0 => setting(r),
            1 => setting(r).left(),
            _ => setting(r).right().left(),
        };
        armed(rec, "set", || u.set(s))?;
    }
    let p = partition(r, len);
    io.run(rec, u, &p, x)
}

/// Units that do not allocate by themselves.
fn unit_for(r: &mut Rng, i: usize, o: usize) -> Box<dyn AudioUnit> {
    match (i, o) {
        (0, 1) => match r.below(4) {
            0 => Box::new(sine_hz(r.lf(50.0, 5000.0))),
            1 => Box::new(noise() >> lowpass_hz(r.lf(50.0, 5000.0), 1.0)),
            2 => Box::new(dc(r.f(-1.0, 1.0)) >> delay(r.f(0.0, 0.02))),
            _ => Box::new(noise() >> limiter(0.003, 0.01)),
        },
        (1, 1) => match r.below(4) {
            0 => Box::new(lowpass_hz(r.lf(50.0, 5000.0), 1.0)),
            1 => Box::new(delay(r.f(0.0, 0.02)) * 0.5),
            2 => Box::new(limiter(0.002, 0.01)),
            _ => Box::new(oversample(shape(Tanh(1.0)))),
        },
        (1, 2) => Box::new(pan(r.f(-1.0, 1.0))),
        (2, 1) => Box::new(pass() * pass()),
        (2, 2) => match r.below(3) {
            0 => Box::new(reverse::<U2>()),
            1 => Box::new(limiter_stereo(0.002, 0.01)),
            _ => Box::new(FeedbackUnit::new(0.002, Box::new(multipass::<U2>() * 0.5))),
        },
        _ => Box::new(noise() | sine_hz(r.lf(50.0, 5000.0))),
    }
}

const ARITY: [(usize, usize); 6] = [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (0, 2)];

fn fade(r: &mut Rng) -> (Fade, f64) {
    (if r.chance(0.5) { Fade::Smooth } else { Fade::Power }, *r.pick(&[0.0, 0.001, 0.003, 0.01]))
}

fn net(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let mut log = vec![];
    let mut net = Net::new(1, 2);
    let sr = vh::rate(&mut r);
    if r.chance(0.5) {
        net.set_sample_rate(sr);
    }
    let mut nodes: Vec<(NodeId, usize, usize)> = vec![];
    for _ in 0..r.below(4) {
        let (i, o) = *r.pick(&ARITY);
        nodes.push((net.chain(unit_for(&mut r, i, o)), i, o));
    }
    if r.chance(0.5) {
        net.allocate();
    }
    let mut back = net.backend();
    let mut io = Io::new(&back);
    for _ in 0..r.usize(1, 14) {
        for _ in 0..r.below(4) {
            let k = if nodes.is_empty() { 0 } else { r.below(nodes.len()) };
            match r.below(10) {
                0 | 1 => {
                    let (i, o) = *r.pick(&ARITY);
                    nodes.push((net.push(unit_for(&mut r, i, o)), i, o));
                    let n = nodes[nodes.len() - 1];
                    net.pipe_output(n.0);
                    if r.chance(0.5) {
                        net.pipe_input(n.0);
                    }
                    log.push("push");
                }
                2 if !nodes.is_empty() => {
                    let n = nodes.swap_remove(k);
                    net.remove(n.0);
                    log.push("remove");
                }
                3 if !nodes.is_empty() => {
                    let n = nodes[k];
                    net.replace(n.0, unit_for(&mut r, n.1, n.2));
                    log.push("replace");
                }
                4 | 5 if !nodes.is_empty() => {
                    let n = nodes[k];
                    let (f, t) = fade(&mut r);
                    net.crossfade(n.0, f, t as f32, unit_for(&mut r, n.1, n.2));
                    log.push("crossfade");
                }
                6 => {
                    let (i, o) = *r.pick(&ARITY);
                    let (f, t) = fade(&mut r);
                    nodes.push((net.fade_in(f, t as f32, unit_for(&mut r, i, o)), i, o));
                    log.push("fade_in");
                }
                7 if !nodes.is_empty() => {
                    net.set(setting(&mut r).node(nodes[k].0));
                    log.push("set");
                }
                8 => {
                    let (i, o) = *r.pick(&ARITY);
                    nodes.push((net.chain(unit_for(&mut r, i, o)), i, o));
                    log.push("chain");
                }
                _ => {
                    if r.chance(0.3) {
                        net.reset();
                        log.push("net reset");
                    }
                }
            }
        }
        if nodes.len() > 12 {
            break;
        }
        if r.chance(0.8) {
            net.commit();
            rec.count("commits", 1);
            log.push("commit");
        }
        if r.chance(0.1) {
            armed(rec, "reset", || back.reset())?;
        }
        let len = r.usize(1, 400);
        let x = stimuli(&mut r, &[Kind::A], len);
        let p = partition(&mut r, len);
        log.push("render");
        rec.ctx = log.join("; ");
        io.run(rec, &mut back, &p, &x)?;
    }
    rec.distinct(&rec.ctx.clone());
    rec.sample = Some(rec.ctx.chars().take(200).collect());
    Ok(())
}

fn seq(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let replay = r.chance(0.5);
    let mut s = Sequencer::new(replay, 1);
    let mut ids: Vec<EventId> = vec![];
    let mut back = s.backend();
    let mut io = Io::new(&back);
    let mut log = vec![format!("replay {}", replay)];
    for _ in 0..r.usize(1, 16) {
        let burst = if r.chance(0.004) { r.usize(100, 1200) } else { 6 };
        for _ in 0..r.below(burst) {
            match r.below(8) {
                0..=4 => {
                    let d = r.uni(0.0, 0.02);
                    let t = r.uni(0.0, 0.01);
                    ids.push(s.push_relative(t, t + d, fade(&mut r).0, d * r.f64(), d * r.f64(), unit_for(&mut r, 0, 1)));
                    log.push("push".into());
                }
                5 | 6 if !ids.is_empty() => {
                    s.edit_relative(*r.pick(&ids), r.uni(0.0, 0.01), 0.001);
                    log.push("edit".into());
                }
                _ => {
                    if r.chance(0.2) {
                        s.reset();
                        log.push("front reset".into());
                    }
                }
            }
        }
        if r.chance(0.1) {
            armed(rec, "reset", || back.reset())?;
            log.push("back reset".into());
        }
        let len = r.usize(1, 500);
        let p = partition(&mut r, len);
        log.push("render".into());
        rec.ctx = log.join("; ");
        io.run(rec, &mut back, &p, &[])?;
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn slot(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let (i, o) = *r.pick(&ARITY);
    let (mut s, mut back) = Slot::new(unit_for(&mut r, i, o));
    let sr = vh::rate(&mut r);
    back.set_sample_rate(sr);
    back.allocate();
    let mut io = Io::new(&back);
    let mut log = vec![format!("slot {} {}", i, o)];
    for _ in 0..r.usize(1, 16) {
        for _ in 0..r.below(4) {
            let (f, t) = fade(&mut r);
            s.set(f, t, unit_for(&mut r, i, o));
            log.push(format!("set {}", t));
        }
        if r.chance(0.1) {
            armed(rec, "reset", || back.reset())?;
            log.push("reset".into());
        }
        let len = r.usize(1, 500);
        let x = stimuli(&mut r, &vec![Kind::A; i], len);
        let p = partition(&mut r, len);
        log.push("render".into());
        rec.ctx = log.join("; ");
        io.run(rec, &mut back, &p, &x)?;
    }
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("P11", "random opcodes, graphs and backend histories, a counting global allocator armed around every audio-thread call; distinct by unit or history");
    let entries: Vec<Entry> = all().into_iter().filter(|e| e.flags & vh::catalog::ALLOCS == 0).collect();
    let es = &entries;
    ctx.par("opcode", es.len() * ctx.scale(48, 1000), |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.clone();
        let sr = vh::rate(&mut r);
        let mut u = e.build(&mut r, sr);
        let len = r.usize(65, 3000);
        let x = e.stim(&mut r, len, sr);
        rec.ctx = format!("{} at {}", e.label(), sr);
        rec.distinct(&e.label());
        life(rec, &mut r, u.as_mut(), &x, len)
    });
    let gen = Gen::new(SHARED | vh::catalog::ALLOCS);
    ctx.par("graph", ctx.scale(32000, 900000), |_i, rec| {
        let mut r = rec.rng.clone();
        let sr = vh::rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let mut g = gen.gen(&mut r, d, i, o, sr);
        g.unit.set_sample_rate(sr);
        let len = r.usize(65, 900);
        let x = stimuli(&mut r, &vec![Kind::A; i], len);
        rec.ctx = g.desc.clone();
        rec.distinct(&g.desc);
        life(rec, &mut r, g.unit.as_mut(), &x, len)
    });
    ctx.par("net_backend", ctx.scale(32000, 1200000), |_i, rec| net(rec));
    ctx.par("sequencer_backend", ctx.scale(12000, 300000), |_i, rec| seq(rec));
    ctx.par("slot_backend", ctx.scale(16000, 600000), |_i, rec| slot(rec));
    ctx.assumptions.push("frontends stay alive and channels do not overflow (1024 to 2048 messages); the sample rate is not changed while rendering".into());
    ctx.finish()
}
