//! P15: a setting reaches exactly the addressed unit, and the unit then behaves as if built with it.
use fundsp::hacker32::*;
use std::sync::{Arc, Mutex};
use vh::{audio, compare, partition, rate, render, Chans, Ctx, Rec, Rng};

type U = Box<dyn AudioUnit>;
type Log = Arc<Mutex<Vec<(usize, String)>>>;

fn show(p: &Parameter) -> String {
    match p {
        Parameter::Null => "null".into(),
        Parameter::Center(a) => format!("center {}", a),
        Parameter::CenterQ(a, b) => format!("center_q {} {}", a, b),
        Parameter::CenterQGain(a, b, c) => format!("center_q_gain {} {} {}", a, b, c),
        Parameter::Value(a) => format!("value {}", a),
        Parameter::Coefficient(a) => format!("coefficient {}", a),
        Parameter::Biquad(a, b, c, d, e) => format!("biquad {} {} {} {} {}", a, b, c, d, e),
        Parameter::Delay(a) => format!("delay {}", a),
        Parameter::Time(a) => format!("time {}", a),
        Parameter::Roughness(a) => format!("roughness {}", a),
        Parameter::Variability(a) => format!("variability {}", a),
        Parameter::Pan(a) => format!("pan {}", a),
        Parameter::AttackRelease(a, b) => format!("attack_release {} {}", a, b),
        Parameter::Phase(a) => format!("phase {}", a),
        Parameter::Seed(a) => format!("seed {}", a),
        Parameter::Interval(a) => format!("interval {}", a),
        Parameter::Subsample(a) => format!("subsample {}", a),
    }
}

fn random_setting(r: &mut Rng) -> (Setting, String) {
    let v: Vec<f32> = (0..5).map(|_| r.f(-100.0, 100.0)).collect();
    match r.below(15) {
        0 => (Setting::center(v[0]), format!("center {}", v[0])),
        1 => (Setting::center_q(v[0], v[1]), format!("center_q {} {}", v[0], v[1])),
        2 => (Setting::center_q_gain(v[0], v[1], v[2]), format!("center_q_gain {} {} {}", v[0], v[1], v[2])),
        3 => (Setting::value(v[0]), format!("value {}", v[0])),
        4 => (Setting::biquad(v[0], v[1], v[2], v[3], v[4]), format!("biquad {} {} {} {} {}", v[0], v[1], v[2], v[3], v[4])),
        5 => (Setting::delay(v[0]), format!("delay {}", v[0])),
        6 => (Setting::time(v[0]), format!("time {}", v[0])),
        7 => (Setting::roughness(v[0]), format!("roughness {}", v[0])),
        8 => (Setting::variability(v[0]), format!("variability {}", v[0])),
        9 => (Setting::pan(v[0]), format!("pan {}", v[0])),
        10 => (Setting::attack_release(v[0], v[1]), format!("attack_release {} {}", v[0], v[1])),
        11 => (Setting::phase(v[0]), format!("phase {}", v[0])),
        12 => {
            let s = r.u64();
            (Setting::seed(s), format!("seed {}", s))
        }
        13 => (Setting::interval(v[0]), format!("interval {}", v[0])),
        _ => {
            let s = r.u64() as u32;
            (Setting::subsample(s), format!("subsample {}", s))
        }
    }
}

/// Leaf that records the settings it receives.
#[derive(Clone)]
struct Leaf {
    id: usize,
    value: f32,
    log: Log,
}

impl AudioNode for Leaf {
    const ID: u64 = 900015;
    type Inputs = U1;
    type Outputs = U1;
    fn tick(&mut self, input: &Frame<f32, U1>) -> Frame<f32, U1> {
        [input[0] * 0.5 + self.value].into()
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(x) = setting.parameter() {
            self.value = *x;
        }
        self.log.lock().unwrap().push((self.id, show(setting.parameter())));
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    L,
    R,
    I(usize),
    N(NodeId),
}

fn address(mut s: Setting, path: &[Step]) -> Setting {
    for p in path {
        s = match p {
            Step::L => s.left(),
            Step::R => s.right(),
            Step::I(i) => s.index(*i),
            Step::N(id) => s.node(*id),
        };
    }
    s
}

fn pname(path: &[Step]) -> String {
    path.iter()
        .map(|p| match p {
            Step::L => "L".to_string(),
            Step::R => "R".to_string(),
            Step::I(i) => format!("{}", i),
            Step::N(_) => "N".to_string(),
        })
        .collect::<Vec<_>>()
        .join(".")
}

type N1 = An<Unit<U1, U1>>;
type Paths = Vec<(Vec<Step>, usize)>;

struct Build {
    log: Log,
    leaves: usize,
    senders: Vec<(SettingSender, Paths)>,
    shape: String,
}

fn n1(x: U) -> N1 {
    unit::<U1, U1>(x)
}

fn under(prefix: &[Step], p: Paths) -> Paths {
    p.into_iter()
        .map(|(path, id)| {
            let mut v = prefix.to_vec();
            v.extend(path);
            (v, id)
        })
        .collect()
}

fn multi(b: &mut Build, r: &mut Rng, levels: usize, prefix: &[Step]) -> (Mutex<Vec<Option<N1>>>, Paths) {
    let mut v = vec![];
    let mut ps = vec![];
    for i in 0..3 {
        let (x, p) = tree(b, r, levels);
        v.push(Some(x));
        let mut q = prefix.to_vec();
        q.push(Step::I(i));
        ps.extend(under(&q, p));
    }
    (Mutex::new(v), ps)
}

fn tree(b: &mut Build, r: &mut Rng, levels: usize) -> (N1, Paths) {
    use Step::*;
    let k = if levels == 0 { 0 } else { r.usize(0, 18) };
    let pair = |b: &mut Build, r: &mut Rng, l: usize, pl: &[Step], pr: &[Step]| {
        let (x, p) = tree(b, r, l);
        let (y, q) = tree(b, r, l);
        let mut ps = under(pl, p);
        ps.extend(under(pr, q));
        (x, y, ps)
    };
    b.shape.push((b'a' + k as u8) as char);
    match k {
        1 | 2 => {
            let (x, y, ps) = pair(b, r, levels - 1, &[L], &[R]);
            (n1(Box::new(x >> y)), ps)
        }
        3 => {
            let (x, y, ps) = pair(b, r, levels - 1, &[L], &[R]);
            (n1(Box::new(x & y)), ps)
        }
        4 => {
            let (x, p) = tree(b, r, levels - 1);
            match r.below(3) {
                0 => (n1(Box::new(dc(0.5) * x)), under(&[R], p)),
                1 => (n1(Box::new(x - dc(0.25))), under(&[L], p)),
                _ => (n1(Box::new(dc(0.5) + x)), under(&[R], p)),
            }
        }
        5 => {
            let (x, p) = tree(b, r, levels);
            match r.below(5) {
                0 => (n1(Box::new(-x)), p),
                1 => (n1(Box::new(x * 0.5)), p),
                2 => (n1(Box::new(0.5 - x)), p),
                3 => (n1(Box::new(!x)), p),
                _ => (n1(Box::new(x + 0.25)), p),
            }
        }
        6 if levels >= 2 => {
            let (x, y, ps) = pair(b, r, levels - 2, &[L, L], &[L, R]);
            (n1(Box::new((x ^ y) >> join::<U2>())), ps)
        }
        7 if levels >= 3 => {
            let (x, y, ps) = pair(b, r, levels - 3, &[L, R, L], &[L, R, R]);
            (n1(Box::new(split::<U2>() >> (x | y) >> join::<U2>())), ps)
        }
        8 if levels >= 2 => {
            let (x, y, ps) = pair(b, r, levels - 2, &[R, L], &[R, R]);
            if r.chance(0.5) {
                (n1(Box::new(split::<U2>() >> (x + y))), ps)
            } else {
                (n1(Box::new(split::<U2>() >> (x * y))), ps)
            }
        }
        9 => {
            let (v, ps) = multi(b, r, levels - 1, &[]);
            (n1(Box::new(busi::<U3, _, _>(|i| v.lock().unwrap()[i as usize].take().unwrap()))), ps)
        }
        10 => {
            let (v, ps) = multi(b, r, levels - 1, &[]);
            (n1(Box::new(pipei::<U3, _, _>(|i| v.lock().unwrap()[i as usize].take().unwrap()))), ps)
        }
        11 if levels >= 2 => {
            let (v, ps) = multi(b, r, levels - 2, &[L]);
            (n1(Box::new(branchi::<U3, _, _>(|i| v.lock().unwrap()[i as usize].take().unwrap()) >> join::<U3>())), ps)
        }
        12 if levels >= 3 => {
            let (v, ps) = multi(b, r, levels - 3, &[L, R]);
            (n1(Box::new(split::<U3>() >> stacki::<U3, _, _>(|i| v.lock().unwrap()[i as usize].take().unwrap()) >> join::<U3>())), ps)
        }
        13 if levels >= 2 => {
            let (v, ps) = multi(b, r, levels - 2, &[R]);
            (n1(Box::new(split::<U3>() >> sumi::<U3, _, _>(|i| v.lock().unwrap()[i as usize].take().unwrap()))), ps)
        }
        14 | 15 => {
            let mut net = Net::new(1, 1);
            let mut ps = vec![];
            for _ in 0..r.usize(1, 3) {
                let (x, p) = tree(b, r, levels - 1);
                let id = net.chain(Box::new(x));
                ps.extend(under(&[N(id)], p));
            }
            (n1(Box::new(net)), ps)
        }
        16 => {
            let (x, p) = tree(b, r, levels);
            (n1(Box::new(BigBlockAdapter::new(Box::new(x)))), p)
        }
        17 => {
            let (x, p) = tree(b, r, levels);
            (n1(Box::new(update(x, 0.01, |_, _, _| ()))), p)
        }
        18 => {
            let (x, p) = tree(b, r, levels);
            let (sender, x) = listen(x);
            b.senders.push((sender, p.clone()));
            (n1(Box::new(x)), p)
        }
        _ => {
            let id = b.leaves;
            b.leaves += 1;
            (n1(Box::new(An(Leaf { id, value: 0.0, log: b.log.clone() }))), vec![(vec![], id)])
        }
    }
}

fn run_some(r: &mut Rng, u: &mut U) {
    let n = r.usize(1, 150);
    let ch = u.inputs();
    let x: Chans = (0..ch).map(|_| vec![0.25; n]).collect();
    let s = partition(r, n);
    render(u.as_mut(), &x, &s);
}

fn case_tree(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut b = Build { log: log.clone(), leaves: 0, senders: vec![], shape: String::new() };
    let lv = r.usize(0, 4);
    let (x, paths) = tree(&mut b, r, lv);
    let mut u: U = Box::new(x);
    rec.ctx = format!("tree {}", b.shape);
    if r.chance(0.3) {
        u = u.clone();
        // Clones of listeners have no senders.
        b.senders.clear();
    }
    if r.chance(0.5) {
        run_some(r, &mut u);
    }
    log.lock().unwrap().clear();
    for _ in 0..r.usize(1, 8) {
        let (s, text) = random_setting(r);
        let mut want: Vec<(usize, String)> = vec![];
        if !b.senders.is_empty() && r.chance(0.5) {
            // A burst of settings from another thread through one of the listeners.
            let i = r.below(b.senders.len());
            let (sender, rel) = &b.senders[i];
            let mut burst = vec![];
            for _ in 0..r.usize(1, 60) {
                let (s, text) = random_setting(r);
                let (path, id) = r.pick(rel).clone();
                burst.push(address(s, &path));
                want.push((id, text));
            }
            let sender = sender.clone();
            let ok = std::thread::spawn(move || burst.into_iter().all(|s| sender.try_send(s).is_ok())).join().unwrap();
            if !ok {
                return Err("listener refused a setting although at most 60 were pending".into());
            }
            // Whatever call comes next takes the settings in.
            match r.below(4) {
                0 => u.reset(),
                1 => u.set_sample_rate(44100.0),
                2 => {
                    u.latency();
                }
                _ => {}
            }
            run_some(r, &mut u);
            rec.count("listener settings", want.len() as u64);
        } else {
            let (path, id) = r.pick(&paths).clone();
            match r.below(6) {
                // An address that stops at a structure.
                0 if path.len() > 0 => {
                    let cut = r.usize(0, path.len() - 1);
                    u.set(address(s, &path[..cut]));
                }
                // An address of the wrong kind.
                1 if path.len() > 0 => {
                    let mut p = path.clone();
                    let i = r.below(p.len());
                    p[i] = match p[i] {
                        Step::I(_) => *r.pick(&[Step::L, Step::R, Step::N(NodeId::new())]),
                        Step::N(_) => *r.pick(&[Step::L, Step::R, Step::I(0), Step::N(NodeId::new())]),
                        _ => *r.pick(&[Step::I(0), Step::I(1), Step::N(NodeId::new())]),
                    };
                    u.set(address(s, &p));
                }
                _ => {
                    u.set(address(s, &path));
                    want.push((id, text));
                    rec.distinct(&pname(&path));
                }
            }
            rec.count("direct settings", 1);
        }
        let got = std::mem::take(&mut *log.lock().unwrap());
        if got != want {
            let k = (0..Ord::max(got.len(), want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
            return Err(format!("{} settings delivered, {} expected; the first difference is at {}: delivered {:?}, expected {:?}", got.len(), want.len(), k, got.get(k), want.get(k)));
        }
    }
    rec.distinct(&b.shape);
    Ok(())
}

/// Settings through a Net that has a backend.
fn case_net(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let n = r.usize(1, 6);
    let mut net = Net::new(0, n);
    let mut ids = vec![];
    let mut val = vec![];
    for i in 0..n {
        let v = r.f(-1.0, 1.0);
        let id = match r.below(3) {
            0 => net.push(Box::new(dc(v))),
            1 => net.push(Box::new(dc(v) >> pass())),
            _ => net.push(Box::new(unit::<U0, U1>(Box::new(dc(v) * 1.0)))),
        };
        net.connect_output(id, 0, i);
        ids.push((id, 0));
        val.push(v);
    }
    // Which nodes need a left step: recorded by probing.
    for i in 0..n {
        let mut u = net.clone();
        u.set(Setting::value(7.0).node(ids[i].0));
        let mut o = vec![0.0; n];
        u.tick(&[], &mut o);
        if o[i] != 7.0 {
            ids[i].1 = 1;
        }
        for j in 0..n {
            if j != i && o[j] != val[j] {
                return Err(format!("setting of node {} changed node {}", i, j));
            }
        }
    }
    let mut back = net.backend();
    let mut o = vec![0.0; n];
    for _ in 0..r.usize(1, 20) {
        for _ in 0..r.usize(0, 5) {
            let i = r.below(n);
            let v = r.f(-1.0, 1.0);
            let s = Setting::value(v).node(ids[i].0);
            if r.chance(0.1) {
                net.set(Setting::value(v));
                net.set(Setting::value(v).index(i));
                net.set(Setting::value(v).node(NodeId::new()));
                net.set(Setting::center(v).node(ids[i].0));
                continue;
            }
            net.set(if ids[i].1 == 1 { s.left() } else { s });
            val[i] = v;
        }
        if r.chance(0.3) {
            net.commit();
        }
        if r.chance(0.8) {
            if r.chance(0.5) {
                back.tick(&[], &mut o);
            } else {
                let len = r.usize(1, 64);
                let y = render(&mut back, &vec![], &vec![len]);
                for i in 0..n {
                    o[i] = y[i][len - 1];
                }
            }
            for i in 0..n {
                if (o[i] - val[i]).abs() > 1e-6 {
                    return Err(format!("output {} of the backend is {}, the setting was {}", i, o[i], val[i]));
                }
            }
            rec.count("net settings checked", 1);
        }
    }
    rec.distinct(&format!("net {} {:x}", n, r.u64()));
    Ok(())
}

/// A unit with parameters, its setting, and how it relates.
struct Entry {
    name: &'static str,
    /// Parameters (up to 5).
    params: fn(&mut Rng) -> Vec<f32>,
    build: fn(&[f32]) -> U,
    /// Settings: each takes (old parameters, new parameters) and gives the setting
    /// and the parameters after it.
    settings: &'static [fn(&[f32], &[f32]) -> (Setting, Vec<f32>)],
    /// Takes effect on reset only.
    on_reset: bool,
    /// Forgets its past: after a change the stream converges to that of a unit built so.
    converges: bool,
    /// Restated settings leave the stream alone.
    keeps: bool,
    inputs: fn(&mut Rng, usize) -> Chans,
}

fn mono(r: &mut Rng, n: usize) -> Chans {
    vec![(0..n).map(|_| r.f(-1.0, 1.0)).collect()]
}
fn none(_: &mut Rng, _: usize) -> Chans {
    vec![]
}
fn hz_in(r: &mut Rng, n: usize) -> Chans {
    let f = r.lf(50.0, 2000.0);
    vec![vec![f; n]]
}
fn hold_in(r: &mut Rng, n: usize) -> Chans {
    vec![(0..n).map(|_| r.f(-1.0, 1.0)).collect(), vec![r.lf(300.0, 3000.0); n]]
}
fn eight(r: &mut Rng, n: usize) -> Chans {
    (0..8).map(|_| (0..n).map(|_| r.f(-1.0, 1.0)).collect()).collect()
}
fn p_fq(r: &mut Rng) -> Vec<f32> {
    vec![r.lf(300.0, 5000.0), r.lf(0.3, 4.0)]
}
fn p_fqg(r: &mut Rng) -> Vec<f32> {
    vec![r.lf(300.0, 5000.0), r.lf(0.3, 4.0), r.lf(0.25, 4.0)]
}
fn p_f(r: &mut Rng) -> Vec<f32> {
    vec![r.lf(300.0, 5000.0)]
}
fn s_c(_: &[f32], p: &[f32]) -> (Setting, Vec<f32>) {
    (Setting::center(p[0]), p.to_vec())
}
fn s_c_keep(o: &[f32], p: &[f32]) -> (Setting, Vec<f32>) {
    let mut v = o.to_vec();
    v[0] = p[0];
    (Setting::center(p[0]), v)
}
fn s_cq(_: &[f32], p: &[f32]) -> (Setting, Vec<f32>) {
    (Setting::center_q(p[0], p[1]), p.to_vec())
}
fn s_cq_keep(o: &[f32], p: &[f32]) -> (Setting, Vec<f32>) {
    (Setting::center_q(p[0], p[1]), vec![p[0], p[1], o[2]])
}
fn s_cqg(_: &[f32], p: &[f32]) -> (Setting, Vec<f32>) {
    (Setting::center_q_gain(p[0], p[1], p[2]), p.to_vec())
}

macro_rules! f1 {
    ($v:ident, $name:expr, $build:expr) => {
        $v.push(Entry { name: $name, params: p_f, build: $build, settings: &[s_c], on_reset: false, converges: true, keeps: true, inputs: mono });
    };
}
macro_rules! f2 {
    ($v:ident, $name:expr, $conv:expr, $build:expr) => {
        $v.push(Entry { name: $name, params: p_fq, build: $build, settings: &[s_cq, s_c_keep], on_reset: false, converges: $conv, keeps: true, inputs: mono });
    };
}
macro_rules! f3 {
    ($v:ident, $name:expr, $conv:expr, $build:expr) => {
        $v.push(Entry { name: $name, params: p_fqg, build: $build, settings: &[s_cqg, s_cq_keep, s_c_keep], on_reset: false, converges: $conv, keeps: true, inputs: mono });
    };
}

fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    macro_rules! filters {
        ($h:ident, $tag:expr) => {{
            use fundsp::$h as h;
            f1!(v, concat!($tag, "butterpass_hz"), |p| Box::new(h::butterpass_hz(p[0])));
            f1!(v, concat!($tag, "lowpole_hz"), |p| Box::new(h::lowpole_hz(p[0])));
            f1!(v, concat!($tag, "highpole_hz"), |p| Box::new(h::highpole_hz(p[0])));
            f1!(v, concat!($tag, "dcblock_hz"), |p| Box::new(h::dcblock_hz(p[0])));
            f2!(v, concat!($tag, "allpass_hz"), true, |p| Box::new(h::allpass_hz(p[0], p[1])));
            f2!(v, concat!($tag, "bandpass_hz"), true, |p| Box::new(h::bandpass_hz(p[0], p[1])));
            f2!(v, concat!($tag, "highpass_hz"), true, |p| Box::new(h::highpass_hz(p[0], p[1])));
            f2!(v, concat!($tag, "lowpass_hz"), true, |p| Box::new(h::lowpass_hz(p[0], p[1])));
            f2!(v, concat!($tag, "notch_hz"), true, |p| Box::new(h::notch_hz(p[0], p[1])));
            f2!(v, concat!($tag, "peak_hz"), true, |p| Box::new(h::peak_hz(p[0], p[1])));
            f2!(v, concat!($tag, "resonator_hz"), true, |p| Box::new(h::resonator_hz(p[0], p[1])));
            f2!(v, concat!($tag, "moog_hz"), false, |p| Box::new(h::moog_hz(p[0], p[1] * 0.2)));
            f2!(v, concat!($tag, "lowrez_hz"), false, |p| Box::new(h::lowrez_hz(p[0], p[1] * 0.2)));
            f2!(v, concat!($tag, "bandrez_hz"), false, |p| Box::new(h::bandrez_hz(p[0], p[1] * 0.2)));
            f2!(v, concat!($tag, "dhighpass_hz"), false, |p| Box::new(h::dhighpass_hz(Tanh(0.7), p[0], p[1])));
            f2!(v, concat!($tag, "dlowpass_hz"), false, |p| Box::new(h::dlowpass_hz(Tanh(0.7), p[0], p[1])));
            f2!(v, concat!($tag, "dresonator_hz"), false, |p| Box::new(h::dresonator_hz(Tanh(0.7), p[0], p[1])));
            f2!(v, concat!($tag, "fhighpass_hz"), false, |p| Box::new(h::fhighpass_hz(Softsign(0.7), p[0], p[1])));
            f2!(v, concat!($tag, "flowpass_hz"), false, |p| Box::new(h::flowpass_hz(Softsign(0.7), p[0], p[1])));
            f2!(v, concat!($tag, "fresonator_hz"), false, |p| Box::new(h::fresonator_hz(Softsign(0.7), p[0], p[1])));
            f3!(v, concat!($tag, "bell_hz"), true, |p| Box::new(h::bell_hz(p[0], p[1], p[2])));
            f3!(v, concat!($tag, "lowshelf_hz"), true, |p| Box::new(h::lowshelf_hz(p[0], p[1], p[2])));
            f3!(v, concat!($tag, "highshelf_hz"), true, |p| Box::new(h::highshelf_hz(p[0], p[1], p[2])));
            f3!(v, concat!($tag, "dbell_hz"), false, |p| Box::new(h::dbell_hz(Tanh(0.7), p[0], p[1], p[2])));
            f3!(v, concat!($tag, "fbell_hz"), false, |p| Box::new(h::fbell_hz(Softsign(0.7), p[0], p[1], p[2])));
            v.push(Entry {
                name: concat!($tag, "allpole_delay"),
                params: |r| vec![r.f(0.2, 3.0)],
                build: |p| Box::new(h::allpole_delay(p[0])),
                settings: &[|_, p| (Setting::delay(p[0]), p.to_vec())],
                on_reset: false,
                converges: true,
                keeps: true,
                inputs: mono,
            });
            v.push(Entry {
                name: concat!($tag, "biquad"),
                params: |r| vec![r.f(-0.9, 0.9), r.f(-0.05, 0.4), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)],
                build: |p| Box::new(h::biquad(p[0] as _, p[1] as _, p[2] as _, p[3] as _, p[4] as _)),
                settings: &[|_, p| (Setting::biquad(p[0], p[1], p[2], p[3], p[4]), p.to_vec())],
                on_reset: false,
                converges: true,
                keeps: true,
                inputs: mono,
            });
            v.push(Entry {
                name: concat!($tag, "follow"),
                params: |r| vec![r.lf(0.001, 0.02)],
                build: |p| Box::new(h::follow(p[0])),
                settings: &[|_, p| (Setting::time(p[0]), p.to_vec())],
                on_reset: false,
                converges: true,
                keeps: true,
                inputs: mono,
            });
            v.push(Entry {
                name: concat!($tag, "afollow"),
                params: |r| vec![r.lf(0.001, 0.02), r.lf(0.001, 0.02)],
                build: |p| Box::new(h::afollow(p[0], p[1])),
                settings: &[|_, p| (Setting::attack_release(p[0], p[1]), p.to_vec())],
                on_reset: false,
                converges: true,
                keeps: true,
                inputs: mono,
            });
        }};
    }
    filters!(hacker32, "32 ");
    filters!(hacker, "64 ");
    let base = Entry { name: "", params: p_f, build: |_| Box::new(pass()), settings: &[], on_reset: false, converges: true, keeps: true, inputs: mono };
    v.push(Entry { name: "allnest_c", params: |r| vec![r.f(-0.8, 0.8)], build: |p| Box::new(allnest_c(p[0], tick())), settings: &[|_, p| (Setting::coefficient(p[0]), p.to_vec())], ..base });
    v.push(Entry {
        name: "dc",
        params: |r| vec![r.f(-9.0, 9.0)],
        build: |p| Box::new(dc(p[0])),
        settings: &[|_, p| (Setting::value(p[0]), p.to_vec())],
        inputs: none,
        ..base
    });
    v.push(Entry {
        name: "constant of three",
        params: |r| vec![r.f(-9.0, 9.0)],
        build: |p| Box::new(constant((p[0], p[0], p[0]))),
        settings: &[|_, p| (Setting::value(p[0]), p.to_vec())],
        inputs: none,
        ..base
    });
    v.push(Entry { name: "pan", params: |r| vec![r.f(-1.0, 1.0)], build: |p| Box::new(pan(p[0])), settings: &[|_, p| (Setting::pan(p[0]), p.to_vec())], ..base });
    v.push(Entry {
        name: "dsf_saw_r",
        params: |r| vec![r.f(0.05, 0.95)],
        build: |p| Box::new(dsf_saw_r(p[0])),
        settings: &[|_, p| (Setting::roughness(p[0]), p.to_vec())],
        inputs: hz_in,
        ..base
    });
    v.push(Entry {
        name: "dsf_square_r",
        params: |r| vec![r.f(0.05, 0.95)],
        build: |p| Box::new(dsf_square_r(p[0])),
        settings: &[|_, p| (Setting::roughness(p[0]), p.to_vec())],
        inputs: hz_in,
        ..base
    });
    v.push(Entry {
        name: "hold",
        params: |r| vec![r.f(0.0, 1.0)],
        build: |p| Box::new(hold(p[0])),
        settings: &[|_, p| (Setting::variability(p[0]), p.to_vec())],
        converges: false,
        inputs: hold_in,
        ..base
    });
    v.push(Entry {
        name: "biquad_bank",
        params: |r| vec![r.f(-0.9, 0.9), r.f(-0.05, 0.4), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)],
        build: |p| {
            let mut b = biquad_bank();
            for i in 0..8 {
                b.set(Setting::biquad(0.1 * i as f32, 0.2, 0.3, 0.4, 0.1 * i as f32).index(i));
            }
            b.set(Setting::biquad(p[0], p[1], p[2], p[3], p[4]).index(5));
            Box::new(b)
        },
        settings: &[|_, p| (Setting::biquad(p[0], p[1], p[2], p[3], p[4]).index(5), p.to_vec())],
        inputs: eight,
        ..base
    });
    v.push(Entry {
        name: "biquad in a bank",
        params: |r| vec![r.f(-0.9, 0.9), r.f(-0.05, 0.4), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)],
        build: |p| Box::new(split::<U8>() >> { let mut b = biquad_bank(); b.set(Setting::biquad(p[0], p[1], p[2], p[3], p[4]).index(3)); b } >> join::<U8>()),
        settings: &[|_, p| (Setting::biquad(p[0], p[1], p[2], p[3], p[4]).left().right().index(3), p.to_vec())],
        ..base
    });
    v.push(Entry {
        name: "subsampled lowpass",
        params: |r| vec![r.usize(1, 40) as f32],
        build: |p| Box::new(lowpass().subsample(p[0] as u32)),
        settings: &[|_, p| (Setting::subsample(p[0] as u32), p.to_vec())],
        converges: false,
        keeps: false,
        inputs: |r, n| vec![audio(r, n), (0..n).map(|_| r.f(300.0, 3000.0)).collect(), vec![1.0; n]],
        ..base
    });
    v.push(Entry {
        name: "envelope interval",
        params: |r| vec![r.f(0.002, 0.02)],
        build: |p| Box::new(envelope(|t: f32| sin_hz(5.0, t)).interval(p[0])),
        settings: &[|_, p| (Setting::interval(p[0]), p.to_vec())],
        converges: false,
        inputs: none,
        ..base
    });
    macro_rules! phase {
        ($name:expr, $b:expr) => {
            v.push(Entry {
                name: $name,
                params: |r| vec![r.f(0.0, 0.999)],
                build: $b,
                settings: &[|_, p| (Setting::phase(p[0]).right(), p.to_vec())],
                on_reset: true,
                converges: false,
                keeps: true,
                inputs: none,
            });
        };
    }
    phase!("sine_hz phase", |p| Box::new(sine_hz(440.0).phase(p[0])));
    phase!("saw_hz phase", |p| Box::new(saw_hz(440.0).phase(p[0])));
    phase!("square_hz phase", |p| Box::new(square_hz(440.0).phase(p[0])));
    phase!("triangle_hz phase", |p| Box::new(triangle_hz(440.0).phase(p[0])));
    phase!("organ_hz phase", |p| Box::new(organ_hz(440.0).phase(p[0])));
    phase!("hammond_hz phase", |p| Box::new(hammond_hz(440.0).phase(p[0])));
    phase!("soft_saw_hz phase", |p| Box::new(soft_saw_hz(440.0).phase(p[0])));
    phase!("ramp_hz phase", |p| Box::new(ramp_hz(440.0).phase(p[0])));
    phase!("poly_saw_hz phase", |p| Box::new(poly_saw_hz(440.0).phase(p[0])));
    phase!("poly_square_hz phase", |p| Box::new(poly_square_hz(440.0).phase(p[0])));
    phase!("poly_pulse_hz phase", |p| Box::new(poly_pulse_hz(440.0, 0.3).phase(p[0])));
    phase!("dsf phase", |p| Box::new((dc(440.0) >> dsf_saw_r(0.5)).phase(p[0])));
    phase!("pulse phase", |p| Box::new((dc((440.0, 0.3)) >> pulse()).phase(p[0])));
    macro_rules! seed {
        ($name:expr, $b:expr) => {
            v.push(Entry {
                name: $name,
                params: |r| vec![r.usize(0, 100000) as f32],
                build: $b,
                settings: &[|_, p| (Setting::seed(p[0] as u64).left(), p.to_vec())],
                on_reset: true,
                converges: false,
                keeps: true,
                inputs: none,
            });
        };
    }
    seed!("noise seed", |p| Box::new(noise().seed(p[0] as u64)));
    seed!("white seed", |p| Box::new(white().seed(p[0] as u64)));
    seed!("pink seed", |p| Box::new(pink().seed(p[0] as u64)));
    seed!("brown seed", |p| Box::new(brown().seed(p[0] as u64)));
    seed!("mls seed", |p| Box::new(mls().seed(p[0] as u64)));
    seed!("mls_bits seed", |p| Box::new(mls_bits(12).seed(p[0] as u64)));
    v
}

fn case_unit(rec: &mut Rec, e: &Entry) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let old = (e.params)(r);
    let new = (e.params)(r);
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r).clamp(22050.0, 192000.0) };
    let (s, after) = (r.pick(e.settings))(&old, &new);
    let mut a = (e.build)(&old);
    let mut b = (e.build)(&after);
    rec.ctx = format!("{} {:?} set to {:?} at {} Hz", e.name, old, after, sr);
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    // A moog-like Q is scaled in the builder; the setting uses the same scale.
    let s = if e.name.contains("moog") || e.name.contains("rez_hz") {
        match s.parameter() {
            Parameter::CenterQ(c, q) => Setting::center_q(*c, q * 0.2),
            _ => s,
        }
    } else {
        s
    };
    let tol = 2e-5;
    let len = r.usize(100, 600);
    match r.below(7) {
        0 => {
            // Set at the beginning.
            rec.ctx += ", at the start";
            a.set(s);
            if e.on_reset {
                a.reset();
            }
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            compare(&render(b.as_mut(), &x, &st), &render(a.as_mut(), &x, &st), tol, tol)?;
        }
        1 => {
            // Set after some rendering, then reset. Includes a clone.
            rec.ctx += ", in the middle, and reset";
            let n = r.usize(1, 300);
            let x = (e.inputs)(r, n);
            let st = partition(r, n);
            render(a.as_mut(), &x, &st);
            a.set(s);
            let mut a = if r.chance(0.5) { a.clone() } else { a };
            a.reset();
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            compare(&render(b.as_mut(), &x, &st), &render(a.as_mut(), &x, &st), tol, tol)?;
        }
        2 => {
            // Set before the sample rate changes.
            rec.ctx += ", before a change of sample rate";
            a.set(s);
            let sr2 = if sr == 44100.0 { 96000.0 } else { 44100.0 };
            a.set_sample_rate(sr2);
            b.set_sample_rate(sr2);
            a.reset();
            b.reset();
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            compare(&render(b.as_mut(), &x, &st), &render(a.as_mut(), &x, &st), tol, tol)?;
        }
        3 if e.keeps => {
            // The present values are set again: nothing changes.
            rec.ctx += ", then the same values again";
            a = b;
            let mut b = (e.build)(&after);
            b.set_sample_rate(sr);
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            let want = render(b.as_mut(), &x, &st);
            let cut = r.usize(0, st.len());
            let mut at = 0;
            for k in &st[..cut] {
                at += if *k == usize::MAX { 1 } else { *k };
            }
            let head: Chans = x.iter().map(|c| c[..Ord::min(at, len)].to_vec()).collect();
            let tail: Chans = x.iter().map(|c| c[Ord::min(at, len)..].to_vec()).collect();
            let mut y = render(a.as_mut(), &head, &st[..cut].to_vec());
            let again = (e.settings[0])(&after, &after).0;
            a.set(if e.name.contains("moog") || e.name.contains("rez_hz") { Setting::center_q(after[0], after[1] * 0.2) } else { again });
            let z = render(a.as_mut(), &tail, &st[cut..].to_vec());
            for (c, z) in y.iter_mut().zip(z) {
                c.extend(z);
            }
            compare(&want, &y, tol, tol)?;
        }
        4 => {
            // Settings the unit does not understand change nothing.
            rec.ctx = format!("{} {:?}, settings of other kinds", e.name, after);
            let mut c = (e.build)(&after);
            c.set_sample_rate(sr);
            let own: Vec<String> = e.settings.iter().map(|f| show(f(&old, &new).0.parameter()).split(' ').next().unwrap().to_string()).collect();
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            for _ in 0..4 {
                let (s, text) = random_setting(r);
                let kind = text.split(' ').next().unwrap().to_string();
                // Center settings reach further than listed, and constants inside take values.
                let general = ["center", "center_q", "center_q_gain", "value", "phase", "roughness", "biquad", "seed"];
                if own.contains(&kind) || general.contains(&kind.as_str()) {
                    continue;
                }
                c.set(match r.below(3) {
                    0 => s,
                    1 => s.left(),
                    _ => s.right(),
                });
            }
            compare(&render(b.as_mut(), &x, &st), &render(c.as_mut(), &x, &st), 0.0, 0.0)?;
        }
        5 if e.converges => {
            // Mid-stream: the past is forgotten and the streams agree.
            rec.ctx += ", in the middle";
            let n = r.usize(1, 300);
            let long = 6000 + (sr / 5.0) as usize;
            let head = (e.inputs)(r, n);
            let tail = (e.inputs)(r, long);
            let st = partition(r, n);
            let st2 = partition(r, long);
            render(a.as_mut(), &head, &st);
            render(b.as_mut(), &head, &st);
            a.set(s);
            let ya = render(a.as_mut(), &tail, &st2);
            let yb = render(b.as_mut(), &tail, &st2);
            let cut = |y: Chans| -> Chans { y.into_iter().map(|c| c[long - 200..].to_vec()).collect() };
            compare(&cut(yb), &cut(ya), 2e-3, 1e-3)?;
        }
        _ => {
            // As a node of a network.
            rec.ctx += ", as a node of a Net";
            let net_in = a.inputs();
            let outs = a.outputs();
            let mut net = Net::new(net_in, outs);
            let id = net.push(a);
            for i in 0..net_in {
                net.connect_input(i, id, i);
            }
            for i in 0..outs {
                net.connect_output(id, i, i);
            }
            net.set_sample_rate(sr);
            let full = prepend(&s, id);
            net.set(full);
            // The generators take their phases from their places in the network.
            let mut twin = Net::new(net_in, outs);
            let id2 = twin.push(b);
            for i in 0..net_in {
                twin.connect_input(i, id2, i);
            }
            for i in 0..outs {
                twin.connect_output(id2, i, i);
            }
            twin.set_sample_rate(sr);
            net.reset();
            twin.reset();
            let x = (e.inputs)(r, len);
            let st = partition(r, len);
            compare(&render(&mut twin, &x, &st), &render(&mut net, &x, &st), tol, tol)?;
        }
    }
    rec.count("settings of units", 1);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

/// The same setting with a node address in front.
fn prepend(s: &Setting, id: NodeId) -> Setting {
    let mut steps = vec![];
    let mut t = s.clone();
    loop {
        match t.direction() {
            Address::Null => break,
            Address::Left => steps.push(Step::L),
            Address::Right => steps.push(Step::R),
            Address::Index(i) => steps.push(Step::I(i)),
            Address::Node(i) => steps.push(Step::N(i)),
        }
        t = t.peel();
    }
    let out = t.node(id);
    address(out, &steps)
}

/// With subsampling, parameter inputs are read every period-th sample, counted from the setting.
fn case_subsample(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let k = r.below(5);
    let mk = |k: usize| -> U {
        match k {
            0 => Box::new(lowpass()),
            1 => Box::new(highpass()),
            2 => Box::new(bell()),
            3 => Box::new(highshelf()),
            _ => Box::new(allpass()),
        }
    };
    let np = if k == 2 || k == 3 { 3 } else { 2 };
    let period = if r.chance(0.1) { 0 } else { r.usize(1, 40) } as u32;
    let p = Ord::max(1, period) as usize;
    let sr = rate(r);
    let (mut a, mut b) = (mk(k), mk(k));
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let pre = if r.chance(0.5) { 0 } else { r.usize(1, 100) };
    let n = r.usize(20, 300);
    rec.ctx = format!("unit {} subsample {} after {} samples at {} Hz", k, period, pre, sr);
    let mut x = vec![vh::audio(r, pre + n)];
    for c in 0..np {
        let mut v = vec![];
        while v.len() < pre + n {
            let y = if c == 0 { (sr * r.log(0.01, 0.2)) as f32 } else { r.lf(0.4, 3.0) };
            let m = if r.chance(0.3) { 1 } else { r.usize(1, 60) };
            v.extend(vec![y; m]);
        }
        v.truncate(pre + n);
        x.push(v);
    }
    let cut = |x: &Chans, from: usize, to: usize| -> Chans { x.iter().map(|c| c[from..to].to_vec()).collect() };
    if pre > 0 {
        let h = cut(&x, 0, pre);
        let s = partition(r, pre);
        render(a.as_mut(), &h, &s);
        render(b.as_mut(), &h, &s);
    }
    a.set(Setting::subsample(period));
    let mut again = n;
    if r.chance(0.4) {
        // A reset starts a period.
        again = r.usize(1, n);
    }
    let mut want: Chans = vec![vec![]];
    let mut got: Chans = vec![vec![]];
    for (f, t) in [(0, again), (again, n)] {
        if f == t {
            continue;
        }
        let h = cut(&x, pre + f, pre + t);
        let mut held = h.clone();
        for c in 1..=np {
            for i in 0..t - f {
                held[c][i] = h[c][i / p * p];
            }
        }
        let s = partition(r, t - f);
        got[0].extend(&render(a.as_mut(), &h, &s)[0]);
        let s = partition(r, t - f);
        want[0].extend(&render(b.as_mut(), &held, &s)[0]);
        a.reset();
        b.reset();
    }
    rec.count("samples_compared", n as u64);
    rec.distinct(&rec.ctx.clone());
    let m = want[0].iter().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
    compare(&want, &got, 1e-4 * m, 0.0).map(|_| ()).map_err(|e| format!("{} (parameters held by the caller vs subsampled)", e))
}

/// A biquad bank takes the settings of one lane at a time, and every lane is the recursion of its own coefficients.
fn case_bank(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let wide = r.chance(0.5);
    let f64bank = r.chance(0.5);
    let lanes = if f64bank { 4 } else { 8 };
    let mut unit: Box<dyn AudioUnit> = match (f64bank, wide) {
        (false, false) => Box::new(fundsp::hacker32::biquad_bank()),
        (false, true) => Box::new(fundsp::hacker32::multipass::<U8>() >> (fundsp::hacker32::biquad_bank() * 1.0)),
        (true, false) => Box::new(fundsp::hacker::biquad_bank()),
        (true, true) => Box::new(fundsp::hacker::multipass::<U4>() >> (fundsp::hacker::biquad_bank() * 1.0)),
    };
    unit.set_sample_rate(48000.0);
    let mut coef = vec![[0.0f64; 5]; lanes];
    let mut state = vec![[0.0f64; 4]; lanes];
    let mut worst = 1.0f64;
    let mut text = String::new();
    for _ in 0..r.usize(1, 8) {
        for _ in 0..r.usize(0, 5) {
            let lane = r.usize(0, lanes - 1);
            let c = [r.f(-0.6, 0.6), r.f(-0.2, 0.3), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)];
            let s = Setting::biquad(c[0], c[1], c[2], c[3], c[4]);
            unit.set(if wide { s.right().index(lane) } else { s.index(lane) });
            coef[lane] = c.map(|x| x as f64);
            text += &format!("set {}; ", lane);
        }
        if r.chance(0.15) {
            unit.reset();
            state = vec![[0.0f64; 4]; lanes];
            text += "reset; ";
        }
        let n = r.usize(1, 90);
        text += &format!("{}; ", n);
        rec.ctx = text.clone();
        let x: Chans = (0..lanes).map(|_| audio(r, n)).collect();
        let s = partition(r, n);
        let got = render(unit.as_mut(), &x, &s);
        let mut want: Chans = vec![vec![]; lanes];
        for l in 0..lanes {
            for i in 0..n {
                let (c, q) = (coef[l], state[l]);
                let v = x[l][i] as f64;
                let y = c[2] * v + c[3] * q[0] + c[4] * q[1] - c[0] * q[2] - c[1] * q[3];
                state[l] = [v, q[0], y, q[2]];
                worst = worst.max(y.abs());
                want[l].push(y as f32);
            }
        }
        rec.count("samples_compared", (n * lanes) as u64);
        compare(&want, &got, 1e-4 * worst, 0.0).map(|_| ()).map_err(|e| format!("{} (lanes by their own coefficients vs biquad bank)", e))?;
    }
    rec.distinct(&text);
    Ok(())
}

/// Setters of the node types do what the settings do, and accessors reach the node they name.
fn case_setter(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r).clamp(22050.0, 192000.0) };
    let (c0, c1) = (r.lf(60.0, 8000.0), r.lf(60.0, 8000.0));
    let (q0, q1) = (r.f(0.3, 5.0), r.f(0.3, 5.0));
    let (g0, g1) = (r.f(0.3, 3.0), r.f(0.3, 3.0));
    let early = r.chance(0.3);
    let warm = if r.chance(0.6) { r.usize(1, 200) } else { 0 };
    let n = r.usize(50, 400);
    let mut name = "";
    let mut out: Option<(U, U)> = None;
    // $a is built with old parameters and then changed, $b is built with the new ones.
    macro_rules! pair {
        ($name:expr, $a:expr, $x:ident => $set:expr, $b:expr) => {{
            name = $name;
            let mut a = $a;
            if !early {
                a.set_sample_rate(sr);
            }
            if warm > 0 {
                let unit: &mut dyn AudioUnit = &mut a;
                let x: Chans = (0..unit.inputs()).map(|_| audio(r, warm)).collect();
                let st = partition(r, warm);
                render(unit, &x, &st);
            }
            {
                let $x = &mut a;
                $set;
            }
            if early {
                a.set_sample_rate(sr);
            }
            a.reset();
            let mut b = $b;
            b.set_sample_rate(sr);
            out = Some((Box::new(a), Box::new(b)));
        }};
    }
    // State variable filters: every setter of every mode.
    macro_rules! svf {
        ($name:expr, $f:ident, $d:expr) => {
            match r.below(4) {
                0 => pair!(concat!($name, " cutoff"), $f(c0, q0), x => if $d { x.set_cutoff(c1) } else { x.set_center(c1) }, $f(c1, q0)),
                1 => pair!(concat!($name, " q"), $f(c0, q0), x => x.set_q(q1), $f(c0, q1)),
                2 => pair!(concat!($name, " cutoff q"), $f(c0, q0), x => if $d { x.set_cutoff_q(c1, q1) } else { x.set_center_q(c1, q1) }, $f(c1, q1)),
                _ => pair!(concat!($name, " one by one"), $f(c0, q0), x => { x.set_q(q1); x.set_gain(g1); x.set_cutoff(c1) }, $f(c1, q1)),
            }
        };
    }
    macro_rules! svfg {
        ($name:expr, $f:ident, $d:expr) => {
            match r.below(6) {
                0 => pair!(concat!($name, " cutoff"), $f(c0, q0, g0), x => if $d { x.set_cutoff(c1) } else { x.set_center(c1) }, $f(c1, q0, g0)),
                1 => pair!(concat!($name, " q"), $f(c0, q0, g0), x => x.set_q(q1), $f(c0, q1, g0)),
                2 => pair!(concat!($name, " gain"), $f(c0, q0, g0), x => x.set_gain(g1), $f(c0, q0, g1)),
                3 => pair!(concat!($name, " cutoff q"), $f(c0, q0, g0), x => if $d { x.set_cutoff_q(c1, q1) } else { x.set_center_q(c1, q1) }, $f(c1, q1, g0)),
                4 => pair!(concat!($name, " all"), $f(c0, q0, g0), x => if $d { x.set_cutoff_q_gain(c1, q1, g1) } else { x.set_center_q_gain(c1, q1, g1) }, $f(c1, q1, g1)),
                _ => pair!(concat!($name, " one by one"), $f(c0, q0, g0), x => { x.set_gain(g1); x.set_q(q1); x.set_center(c1) }, $f(c1, q1, g1)),
            }
        };
    }
    macro_rules! fb {
        ($name:expr, $f:ident) => {
            match r.below(5) {
                0 => pair!(concat!($name, " center"), $f(Softsign(1.0), c0, q0), x => x.set_center(c1), $f(Softsign(1.0), c1, q0)),
                1 => pair!(concat!($name, " q"), $f(Softsign(1.0), c0, q0), x => x.set_q(q1), $f(Softsign(1.0), c0, q1)),
                2 => pair!(concat!($name, " center q"), $f(Softsign(1.0), c0, q0), x => x.set_center_q(c1, q1), $f(Softsign(1.0), c1, q1)),
                3 => pair!(concat!($name, " all"), $f(Softsign(1.0), c0, q0), x => x.set_center_q_gain(c1, q1, 1.0), $f(Softsign(1.0), c1, q1)),
                _ => pair!(concat!($name, " one by one"), $f(Softsign(1.0), c0, q0), x => { x.set_q(q1); x.set_center(c1) }, $f(Softsign(1.0), c1, q1)),
            }
        };
    }
    macro_rules! fbg {
        ($name:expr, $f:ident) => {
            match r.below(4) {
                0 => pair!(concat!($name, " gain"), $f(Softsign(1.0), c0, q0, g0), x => x.set_gain(g1), $f(Softsign(1.0), c0, q0, g1)),
                1 => pair!(concat!($name, " q"), $f(Softsign(1.0), c0, q0, g0), x => x.set_q(q1), $f(Softsign(1.0), c0, q1, g0)),
                2 => pair!(concat!($name, " all"), $f(Softsign(1.0), c0, q0, g0), x => x.set_center_q_gain(c1, q1, g1), $f(Softsign(1.0), c1, q1, g1)),
                _ => pair!(concat!($name, " center"), $f(Softsign(1.0), c0, q0, g0), x => x.set_center(c1), $f(Softsign(1.0), c1, q0, g0)),
            }
        };
    }
    let d = r.chance(0.5);
    let i = r.below(6);
    let (t0, t1) = (r.lf(0.001, 0.2), r.lf(0.001, 0.2));
    let w = [r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)];
    match r.below(50) {
        0 => svf!("lowpass", lowpass_hz, d),
        1 => svf!("highpass", highpass_hz, d),
        2 => svf!("bandpass", bandpass_hz, d),
        3 => svf!("notch", notch_hz, d),
        4 => svf!("peak", peak_hz, d),
        5 => svf!("allpass", allpass_hz, d),
        6 => svfg!("bell", bell_hz, d),
        7 => svfg!("lowshelf", lowshelf_hz, d),
        8 => svfg!("highshelf", highshelf_hz, d),
        9 => fb!("flowpass", flowpass_hz),
        10 => fb!("fhighpass", fhighpass_hz),
        11 => fb!("fresonator", fresonator_hz),
        12 => fb!("dlowpass", dlowpass_hz),
        13 => fb!("dhighpass", dhighpass_hz),
        14 => fb!("dresonator", dresonator_hz),
        15 => fbg!("fbell", fbell_hz),
        16 => fbg!("dbell", dbell_hz),
        17 => pair!("lowpole", lowpole_hz(c0), x => x.set_cutoff(c1), lowpole_hz(c1)),
        18 => pair!("highpole", highpole_hz(c0), x => x.set_cutoff(c1), highpole_hz(c1)),
        19 => pair!("dcblock", dcblock_hz(c0), x => x.set_cutoff(c1), dcblock_hz(c1)),
        20 => pair!("allpole", allpole_delay(q0), x => x.set_delay(q1), allpole_delay(q1)),
        21 => pair!("butterpass", butterpass_hz(c0), x => x.set_cutoff(c1), butterpass_hz(c1)),
        22 => pair!("resonator", resonator_hz(c0, c0 * 0.1), x => x.set_center_q(c1, c1 * 0.2), resonator_hz(c1, c1 * 0.2)),
        23 => pair!("moog", moog_hz(c0, 0.3), x => x.set_cutoff_q(c1, 0.5), moog_hz(c1, 0.5)),
        24 => pair!("lowrez", lowrez_hz(c0, 0.3), x => x.set_cutoff_q(c1, 0.5), lowrez_hz(c1, 0.5)),
        25 => pair!("bandrez", bandrez_hz(c0, 0.3), x => x.set_cutoff_q(c1, 0.5), bandrez_hz(c1, 0.5)),
        26 => pair!("follow", follow(t0), x => x.set_response_time(t1), follow(t1)),
        27 => pair!("afollow", afollow(t0, t1), x => x.set_time(t1, t0), afollow(t1, t0)),
        28 => pair!("pan", pan(q0 / 5.0), x => x.set_pan(q1 / -5.0), pan(q1 / -5.0)),
        29 => pair!("hold", hold_hz(200.0, 0.1), x => x.right_mut().set_variability(g0 / 3.0), hold_hz(200.0, g0 / 3.0)),
        30 => pair!("allnest", allnest_c(0.2, tick()), x => x.set_coefficient(g0 / -3.5), allnest_c(g0 / -3.5, tick())),
        31 => pair!("fir", fir((1.0, 0.5, 0.25)), x => x.set_weights((w[0], w[1], w[2])), fir((w[0], w[1], w[2]))),
        32 => pair!("dsf", dsf_saw_r(0.2).phase(0.25), x => x.set_roughness(g0 / 3.5), dsf_saw_r(g0 / 3.5).phase(0.25)),
        33 => pair!("constant", dc((w[0], w[1])), x => x.set_value([g0, g1].into()), dc((g0, g1))),
        34 => pair!("constant scalar", dc((w[0], w[1], w[2])), x => x.set_scalar(g0), dc((g0, g0, g0))),
        // Accessors of combinators.
        35 => pair!("sum left", lowpole_hz(c0) + highpole_hz(c1), x => x.left_mut().set_cutoff(c1), lowpole_hz(c1) + highpole_hz(c1)),
        36 => pair!("product right", lowpole_hz(c0) * highpole_hz(c1), x => x.right_mut().set_cutoff(c0), lowpole_hz(c0) * highpole_hz(c0)),
        37 => pair!("pipe left", lowpole_hz(c0) >> lowpole_hz(c0), x => x.left_mut().set_cutoff(c1), lowpole_hz(c1) >> lowpole_hz(c0)),
        38 => pair!("pipe right", lowpole_hz(c0) >> highpole_hz(c0), x => x.right_mut().set_cutoff(c1), lowpole_hz(c0) >> highpole_hz(c1)),
        39 => pair!("stack", lowpole_hz(c0) | lowpole_hz(c0), x => if d { x.left_mut().set_cutoff(c1) } else { x.right_mut().set_cutoff(c1) }, lowpole_hz(if d { c1 } else { c0 }) | lowpole_hz(if d { c0 } else { c1 })),
        40 => pair!("branch", lowpole_hz(c0) ^ lowpole_hz(c0), x => if d { x.left_mut().set_cutoff(c1) } else { x.right_mut().set_cutoff(c1) }, lowpole_hz(if d { c1 } else { c0 }) ^ lowpole_hz(if d { c0 } else { c1 })),
        41 => pair!("bus", lowpole_hz(c0) & lowpole_hz(c0 * 0.5), x => if d { x.left_mut().set_cutoff(c1) } else { x.right_mut().set_cutoff(c1) }, lowpole_hz(if d { c1 } else { c0 }) & lowpole_hz(if d { c0 * 0.5 } else { c1 })),
        42 => pair!("busi", busi::<U6, _, _>(|k| lowpole_hz(c0 + k as f32 * 100.0)), x => x.node_mut(i).set_cutoff(c1), busi::<U6, _, _>(|k| lowpole_hz(if k as usize == i { c1 } else { c0 + k as f32 * 100.0 }))),
        43 => pair!("stacki", stacki::<U6, _, _>(|k| lowpole_hz(c0 + k as f32 * 100.0)), x => x.node_mut(i).set_cutoff(c1), stacki::<U6, _, _>(|k| lowpole_hz(if k as usize == i { c1 } else { c0 + k as f32 * 100.0 }))),
        44 => pair!("branchi", branchi::<U6, _, _>(|k| lowpole_hz(c0 + k as f32 * 100.0)), x => x.node_mut(i).set_cutoff(c1), branchi::<U6, _, _>(|k| lowpole_hz(if k as usize == i { c1 } else { c0 + k as f32 * 100.0 }))),
        45 => pair!("sumi", sumi::<U6, _, _>(|k| lowpole_hz(c0 + k as f32 * 100.0)), x => x.node_mut(i).set_cutoff(c1), sumi::<U6, _, _>(|k| lowpole_hz(if k as usize == i { c1 } else { c0 + k as f32 * 100.0 }))),
        46 => pair!("pipei", pipei::<U6, _, _>(|k| lowpole_hz(c0 + k as f32 * 100.0)), x => x.node_mut(i).set_cutoff(c1), pipei::<U6, _, _>(|k| lowpole_hz(if k as usize == i { c1 } else { c0 + k as f32 * 100.0 }))),
        47 => pair!("oversample", oversample(lowpole_hz(c0)), x => x.node_mut().set_cutoff(c1), oversample(lowpole_hz(c1))),
        48 => {
            let build = |k: usize, c: f32| {
                let mut net = Net::new(1, 6);
                let mut ids = vec![];
                for j in 0..6 {
                    let f = if j == k { c } else { c0 + j as f32 * 100.0 };
                    let id = net.push(Box::new(lowpole_hz(f)));
                    net.connect_input(0, id, 0);
                    net.connect_output(id, 0, j);
                    ids.push(id);
                }
                (net, ids)
            };
            let (net, ids) = build(6, 0.0);
            pair!("net", net, x => x.node_mut(ids[i]).set(Setting::center(c1)), build(i, c1).0)
        }
        _ => {
            // Readable parameters follow the setters.
            name = "getters";
            let mut a = bell_hz(c0, q0, g0);
            a.set_sample_rate(sr);
            a.set_center_q_gain(c1, q1, g1);
            let mut f = follow(t0);
            f.set_sample_rate(sr);
            f.set_response_time(t1);
            let mut af = afollow(t0, t0);
            af.set_time(t1, t0);
            let mut h = An(fundsp::noise::Hold::new(0.1));
            h.set_variability(0.7);
            let mut v = fir((1.0, 0.5, 0.25));
            v.set_weights((w[0], w[1], w[2]));
            let ok = [
                a.center() == c1 && a.cutoff() == c1 && a.q() == q1 && a.gain() == g1 && a.sample_rate() == sr as f32,
                f.response_time() == t1,
                af.attack_time() == t1 && af.release_time() == t0,
                h.variability() == 0.7,
                v.weights()[..] == w[..],
            ];
            if let Some(k) = ok.iter().position(|x| !x) {
                return Err(format!("getter {} does not return what was set", k));
            }
        }
    }
    rec.ctx = format!("setter {} from {} {} {} to {} {} {} at {} Hz (early {}, warm {}, i {}, d {})", name, c0, q0, g0, c1, q1, g1, sr, early, warm, i, d);
    rec.distinct(&rec.ctx.clone());
    if let Some((mut a, mut b)) = out {
        if !early && a.inputs() > 0 && r.chance(0.3) {
            // Also through a clone.
            a = a.clone();
        }
        let x: Chans = (0..a.inputs()).map(|k| if name == "dsf" && k == 0 { vec![c0; n] } else { audio(r, n) }).collect();
        let st = partition(r, n);
        rec.count("samples_compared", n as u64);
        let want = render(b.as_mut(), &x, &st);
        let m = want.iter().flatten().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
        compare(&want, &render(a.as_mut(), &x, &st), 1e-4 * m, 0.0).map_err(|e| format!("{} (built with the parameters vs set)", e))?;
    }
    Ok(())
}

/// A setting sent to a listener is in force before whatever is asked of the unit next.
fn case_listener(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = if r.chance(0.5) { 44100.0 } else { rate(r).clamp(22050.0, 192000.0) };
    let n = r.usize(1, 300);
    let p = r.f(0.0, 1.0);
    let seed = r.int(0, 1 << 30) as u64;
    let (c0, c1, q1) = (r.lf(60.0, 8000.0), r.lf(60.0, 8000.0), r.f(0.3, 5.0));
    macro_rules! two {
        ($a:expr, $s:expr, $b:expr) => {{
            let (s, a) = listen($a);
            (s, $s, Box::new(a) as U, Box::new($b) as U)
        }};
    }
    let kind = r.below(9);
    let (sender, s, mut a, mut b) = match kind {
        0 => two!(sine(), Setting::phase(p), sine().phase(p)),
        1 => two!(saw(), Setting::phase(p), saw().phase(p)),
        2 => two!(ramp(), Setting::phase(p), ramp().phase(p)),
        3 => two!(noise(), Setting::seed(seed), noise().seed(seed)),
        4 => two!(poly_square(), Setting::phase(p), poly_square().phase(p)),
        5 => two!(lowpass_hz(c0, 1.0), Setting::center_q(c1, q1), lowpass_hz(c1, q1)),
        6 => two!(highpole_hz(c0), Setting::center(c1), highpole_hz(c1)),
        7 => two!(follow(0.5), Setting::time(p * 0.1 + 0.001), follow(p * 0.1 + 0.001)),
        _ => two!(pan(0.0), Setting::pan(p), pan(p)),
    };
    rec.ctx = format!("listener kind {} at {} Hz, {} samples before, phase {}", kind, sr, n, p);
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let wide = r.chance(0.6);
    let input = |r: &mut Rng, u: &U| -> Chans { if u.inputs() == 0 { vec![] } else if kind < 5 { hz_in(r, n) } else { mono(r, n) } };
    if wide {
        let x = input(r, &a);
        let st = partition(r, n);
        render(a.as_mut(), &x, &st);
    }
    if sender.try_send(s).is_err() {
        return Err("the listener refused a setting".into());
    }
    let what = r.below(4);
    match what {
        0 if kind >= 5 => {
            for _ in 0..3 {
                let f = r.log(50.0, sr * 0.4);
                let o = r.below(a.outputs());
                let (x, y) = (a.response(o, f), b.response(o, f));
                match (x, y) {
                    (Some(x), Some(y)) if (x - y).norm() <= 1e-5 => (),
                    _ => return Err(format!("response at {} Hz after the setting is {:?}, should be {:?}", f, x, y)),
                }
            }
        }
        1 => {
            let sr2 = if sr == 44100.0 { 96000.0 } else { 44100.0 };
            a.set_sample_rate(sr2);
            b.set_sample_rate(sr2);
        }
        _ => (),
    }
    a.reset();
    b.reset();
    let x = input(r, &a);
    let st = partition(r, n);
    rec.count("listener settings", 1);
    rec.distinct(&rec.ctx.clone());
    compare(&render(b.as_mut(), &x, &st), &render(a.as_mut(), &x, &st), 2e-5, 2e-5).map(|_| ()).map_err(|e| format!("{} (built vs set through the listener)", e))
}

fn main() {
    let mut c = Ctx::new("P15", "distinct trees and address paths with recording leaves, and units of the settings table with old and new parameters");
    let n = c.scale(20, 300);
    c.par("tree", 6000 * n, |_, rec| case_tree(rec));
    c.par("net", 1500 * n, |_, rec| case_net(rec));
    c.par("bank", 200 * n, |_, rec| case_bank(rec));
    c.par("subsample", 500 * n, |_, rec| case_subsample(rec));
    c.par("setter", 1000 * n, |_, rec| case_setter(rec));
    c.par("listener", 300 * n, |_, rec| case_listener(rec));
    let e = entries();
    c.par("unit", e.len() * 40 * n, |i, rec| case_unit(rec, &e[i % e.len()]));
    c.finish();
}
