//! Probe node: an AudioNode that logs every lifecycle call it receives.
use crate::core::*;
use fundsp::hacker32::*;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Rate(f64),
    Reset,
    Alloc,
    Hash(u64),
    /// Setting value received, with whether the address was exhausted.
    Set(f32, bool),
    /// Rendered at the given rate.
    Run(f64),
}

#[derive(Clone)]
pub struct ProbeLog(pub Arc<Mutex<Vec<Ev>>>);

impl ProbeLog {
    pub fn new() -> Self {
        ProbeLog(Arc::new(Mutex::new(Vec::new())))
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
    pub fn push(&self, e: Ev) {
        self.0.lock().unwrap().push(e);
    }
}

#[derive(Clone)]
pub struct Probe<I, O> {
    pub log: ProbeLog,
    rate: f64,
    run_logged: f64,
    pub value: f32,
    /// Rolling hash of everything that influences the state, so that the output reflects resets.
    count: u32,
    _marker: PhantomData<(I, O)>,
}

impl<I: Size<f32>, O: Size<f32>> Probe<I, O> {
    pub fn new(log: &ProbeLog) -> Self {
        Probe { log: log.clone(), rate: 44100.0, run_logged: -1.0, value: 0.0, count: 0, _marker: PhantomData }
    }
}

impl<I: Size<f32>, O: Size<f32>> AudioNode for Probe<I, O> {
    const ID: u64 = 900001;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) {
        self.count = 0;
        self.log.push(Ev::Reset);
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.rate = sample_rate;
        self.run_logged = -1.0;
        self.log.push(Ev::Rate(sample_rate));
    }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        if self.run_logged != self.rate || self.count == 0 {
            self.run_logged = self.rate;
            self.log.push(Ev::Run(self.rate));
        }
        self.count += 1;
        let s: f32 = input.iter().sum();
        Frame::generate(|i| s * 0.1 + self.value * 0.01 + i as f32 * 0.001)
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.value = *v;
            self.log.push(Ev::Set(*v, matches!(setting.direction(), Address::Null)));
        }
    }
    fn set_hash(&mut self, hash: u64) {
        self.log.push(Ev::Hash(hash));
    }
    fn allocate(&mut self) {
        self.log.push(Ev::Alloc);
    }
    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
        Routing::Arbitrary(0.0).route(input, O::USIZE)
    }
}

/// Shape that logs lifecycle calls.
#[derive(Clone)]
pub struct ProbeShape(pub ProbeLog, f64, bool);
impl Shape for ProbeShape {
    fn shape(&mut self, input: f32) -> f32 {
        if !self.2 {
            self.2 = true;
            self.0.push(Ev::Run(self.1));
        }
        input * 0.5
    }
    fn reset(&mut self) {
        self.0.push(Ev::Reset);
        self.2 = false;
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.1 = sample_rate;
        self.2 = false;
        self.0.push(Ev::Rate(sample_rate));
    }
}

/// What is contained in a built unit.
pub struct Part {
    pub log: ProbeLog,
    /// Rate of the part divided by the outer rate.
    pub factor: f64,
    pub desc: String,
    /// Shapes receive rate and reset only.
    pub shape: bool,
    /// Address steps from the outermost unit, if addressable.
    pub address: Option<Vec<Step>>,
    /// Inside a Sequencer: events are allocated when pushed and are not pinged.
    pub event: bool,
}

#[derive(Clone, Debug)]
pub enum Step {
    Left,
    Right,
    Index(usize),
    Node(fundsp::net::NodeId),
}

pub struct Ctor {
    pub parts: Vec<Part>,
    /// Frontends that must stay alive.
    pub keep: Vec<Box<dyn std::any::Any>>,
    pub desc: String,
}

/// How a container forwards settings to a part.
#[derive(Clone, Debug)]
pub enum Fwd {
    /// With an address step.
    At(Step),
    /// Transparent.
    Same,
    /// Not at all.
    No,
}

type U11 = An<Unit<U1, U1>>;
type U01 = An<Unit<U0, U1>>;

impl Ctor {
    pub fn new() -> Self {
        Ctor { parts: vec![], keep: vec![], desc: String::new() }
    }
    fn probe<I: Size<f32>, O: Size<f32>>(&mut self, factor: f64) -> An<Probe<I, O>> {
        let log = ProbeLog::new();
        self.parts.push(Part { log: log.clone(), factor, desc: format!("probe#{}", self.parts.len()), shape: false, address: Some(vec![]), event: false });
        An(Probe::new(&log))
    }
    fn shape(&mut self, factor: f64) -> ProbeShape {
        let log = ProbeLog::new();
        self.parts.push(Part { log: log.clone(), factor, desc: format!("shape#{}", self.parts.len()), shape: true, address: None, event: false });
        ProbeShape(log, 44100.0, false)
    }
    /// Build child and prepend `step` to the address of its parts (None = the container does not forward settings).
    fn sub(&mut self, r: &mut Rng, depth: usize, factor: f64, step: Fwd) -> U11 {
        let from = self.parts.len();
        let u = self.node(r, depth, factor);
        self.prepend(from, step);
        unit::<U1, U1>(u)
    }
    fn prepend(&mut self, from: usize, step: Fwd) {
        for p in self.parts[from..].iter_mut() {
            match (&mut p.address, &step) {
                (Some(a), Fwd::At(s)) => a.insert(0, s.clone()),
                (a, Fwd::No) => *a = None,
                _ => (),
            }
        }
    }
    fn gen(&mut self, r: &mut Rng, depth: usize, factor: f64) -> Box<dyn AudioUnit> {
        let x = self.sub(r, depth, factor, Fwd::At(Step::Right));
        Box::new(dc(0.1) >> x)
    }
    /// Build a 1 -> 1 unit with probes inside.
    pub fn node(&mut self, r: &mut Rng, depth: usize, f: f64) -> Box<dyn AudioUnit> {
        use Step::*;
        if depth == 0 {
            self.desc += "p";
            return Box::new(self.probe::<U1, U1>(f));
        }
        let d = depth - 1;
        let k = r.below(44);
        let names = [
            "pipe", "stack", "branch", "bus", "sum", "sub", "mul", "neg", "thru", "addc", "mulc", "csub", "pipei", "stacki", "branchi", "busi", "sumi",
            "feedback", "feedback2", "feedbackunit", "oversample", "resample", "update", "listen", "allnest", "reverb3", "netwrap", "netops", "netpush",
            "netbackend", "bigblock", "blockrate", "slot", "sequencer", "seqbackend", "shape", "adaptive", "fbbiquad", "fixedfbbiquad", "dirtybiquad", "fixeddirtybiquad", "net_in_net", "pan", "subc",
        ];
        self.desc += names[k as usize];
        self.desc += "(";
        let u: Box<dyn AudioUnit> = match k {
            0 => { let a = self.sub(r, d, f, Fwd::At(Left)); let b = self.sub(r, d, f, Fwd::At(Right)); Box::new(a >> b) }
            1 => {
                let from = self.parts.len();
                let a = self.sub(r, d, f, Fwd::At(Left)); let b = self.sub(r, d, f, Fwd::At(Right));
                // split >> (a | b) >> join
                self.prepend(from, Fwd::At(Right)); self.prepend(from, Fwd::At(Left));
                Box::new(split::<U2>() >> (a | b) >> join::<U2>())
            }
            2 => {
                let from = self.parts.len();
                let a = self.sub(r, d, f, Fwd::At(Left)); let b = self.sub(r, d, f, Fwd::At(Right));
                self.prepend(from, Fwd::At(Left));
                Box::new((a ^ b) >> join::<U2>())
            }
            3 => { let a = self.sub(r, d, f, Fwd::At(Left)); let b = self.sub(r, d, f, Fwd::At(Right)); Box::new(a & b) }
            4 | 5 | 6 => {
                let from = self.parts.len();
                let a = self.sub(r, d, f, Fwd::At(Left)); let b = self.sub(r, d, f, Fwd::At(Right));
                self.prepend(from, Fwd::At(Right));
                match k {
                    4 => Box::new(split::<U2>() >> (a + b)),
                    5 => Box::new(split::<U2>() >> (a - b)),
                    _ => Box::new(split::<U2>() >> (a * b)),
                }
            }
            7 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(-a) }
            8 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(!a) }
            9 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(a + 0.1) }
            10 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(a * 0.5) }
            11 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(0.5 - a) }
            43 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(a - 0.5) }
            12 => { let c: Vec<_> = (0..3).map(|i| self.sub(r, d, f, Fwd::At(Index(i)))).collect(); Box::new(pipei::<U3, _, _>(move |i| c[i as usize].clone())) }
            13 => {
                let from = self.parts.len();
                let c: Vec<_> = (0..3).map(|i| self.sub(r, d, f, Fwd::At(Index(i)))).collect();
                self.prepend(from, Fwd::At(Right)); self.prepend(from, Fwd::At(Left));
                Box::new(split::<U3>() >> stacki::<U3, _, _>(move |i| c[i as usize].clone()) >> join::<U3>())
            }
            14 => {
                let from = self.parts.len();
                let c: Vec<_> = (0..3).map(|i| self.sub(r, d, f, Fwd::At(Index(i)))).collect();
                self.prepend(from, Fwd::At(Left));
                Box::new(branchi::<U3, _, _>(move |i| c[i as usize].clone()) >> join::<U3>())
            }
            15 => { let c: Vec<_> = (0..3).map(|i| self.sub(r, d, f, Fwd::At(Index(i)))).collect(); Box::new(busi::<U3, _, _>(move |i| c[i as usize].clone())) }
            16 => {
                let from = self.parts.len();
                let c: Vec<_> = (0..3).map(|i| self.sub(r, d, f, Fwd::At(Index(i)))).collect();
                self.prepend(from, Fwd::At(Right));
                Box::new(split::<U3>() >> sumi::<U3, _, _>(move |i| c[i as usize].clone()))
            }
            17 => { let a = self.sub(r, d, f, Fwd::No); Box::new(feedback(a)) }
            18 => { let a = self.sub(r, d, f, Fwd::No); let b = self.sub(r, d, f, Fwd::No); Box::new(feedback2(a, b)) }
            19 => { let from = self.parts.len(); let a = self.node(r, d, f); self.prepend(from, Fwd::No); Box::new(FeedbackUnit::new(r.log(1e-5, 0.01), a)) }
            20 => { let a = self.sub(r, d, f * 2.0, Fwd::No); Box::new(oversample(a)) }
            21 => { let a = self.sub(r, d, f, Fwd::No); let g = dc(0.1) >> a; Box::new((pass() * 0.0 + 1.0) >> resample(g)) }
            22 => { let a = self.sub(r, d, f, Fwd::Same); Box::new(update(a, 0.01, |_, _, _| {})) }
            23 => { let a = self.sub(r, d, f, Fwd::Same); let (s, l) = listen(a); self.keep.push(Box::new(s)); Box::new(l) }
            24 => { let a = self.sub(r, d, f, Fwd::No); Box::new(allnest_c(0.3, a)) }
            25 => { let a = self.sub(r, d, f, Fwd::No); Box::new(split::<U2>() >> reverb3_stereo(1.0, 0.5, a) >> join::<U2>()) }
            26 => { let from = self.parts.len(); let a = self.node(r, d, f); self.prepend(from, Fwd::No); Box::new(Net::wrap(a)) }
            27 => {
                let from = self.parts.len();
                let a = Net::wrap(self.node(r, d, f)); let b = Net::wrap(self.node(r, d, f)); let c = Net::wrap(self.node(r, d, f));
                self.prepend(from, Fwd::No);
                match r.below(6) {
                    0 => Box::new(a >> b >> c),
                    1 => Box::new(a & b & c),
                    2 => Box::new((a ^ b) >> (pass() + pass()) >> c),
                    3 => Box::new((pass() ^ pass()) >> (a | b) >> (pass() + pass()) >> c),
                    4 => Box::new(((pass() ^ pass()) >> (a + b)) >> c),
                    _ => Box::new(-(((pass() ^ pass()) >> (a * b)) >> !c)),
                }
            }
            28 => {
                let mut net = Net::new(1, 1);
                let mut last = None;
                for _ in 0..r.usize(1, 3) {
                    let from = self.parts.len();
                    let a = self.node(r, d, f);
                    let id = net.push(a);
                    self.prepend(from, Fwd::At(Node(id)));
                    match last {
                        None => net.connect_input(0, id, 0),
                        Some(p) => net.connect(p, 0, id, 0),
                    }
                    last = Some(id);
                }
                net.connect_output(last.unwrap(), 0, 0);
                Box::new(net)
            }
            29 => {
                let from = self.parts.len();
                let mut net = Net::wrap(self.node(r, d, f));
                self.prepend(from, Fwd::No);
                let mut b = net.backend();
                if r.chance(0.5) {
                    // Commit one more node later.
                    let from = self.parts.len();
                    let a = self.node(r, d, f);
                    self.prepend(from, Fwd::No);
                    net.chain(a);
                    net.commit();
                    // Clones of a backend do not receive commits, so make it arrive now.
                    b.tick(&[0.0], &mut [0.0]);
                }
                self.keep.push(Box::new(net));
                Box::new(b)
            }
            30 => { let a = self.node(r, d, f); Box::new(BigBlockAdapter::new(a)) }
            31 => {
                let from = self.parts.len();
                let g = self.gen(r, d, f);
                self.prepend(from, Fwd::At(Left)); // stack: left, then Pipe left
                let a = unit::<U0, U1>(Box::new(BlockRateAdapter::new(g)));
                self.prepend(from, Fwd::At(Left));
                Box::new((a | pass()) >> join::<U2>())
            }
            32 => {
                let from = self.parts.len();
                let a = self.node(r, d, f);
                self.prepend(from, Fwd::No);
                let (s, b) = Slot::new(a);
                self.keep.push(Box::new(s));
                Box::new(b)
            }
            33 | 34 => {
                let from = self.parts.len();
                let mut seq = Sequencer::new(true, 1);
                let n = r.usize(1, 3);
                for _ in 0..n {
                    let g = self.gen(r, d, f);
                    seq.push(0.0, 100.0, Fade::Smooth, 0.0, 0.0, g);
                }
                self.prepend(from, Fwd::No);
                for p in self.parts[from..].iter_mut() { p.event = true; }
                let a: U01 = if k == 33 { unit(Box::new(seq)) } else {
                    let b = seq.backend();
                    self.keep.push(Box::new(seq));
                    unit(Box::new(b))
                };
                Box::new(a + pass())
            }
            35 => { let s = self.shape(f); Box::new(shape(s)) }
            36 => { let s = self.shape(f); Box::new(shape(Adaptive::new(0.01, s))) }
            37 => { let s = self.shape(f); Box::new((pass() | dc((1000.0, 1.0))) >> flowpass(s)) }
            38 => { let s = self.shape(f); Box::new(flowpass_hz(s, 1000.0, 1.0)) }
            39 => { let s = self.shape(f); Box::new((pass() | dc((1000.0, 1.0))) >> dlowpass(s)) }
            40 => { let s = self.shape(f); Box::new(dlowpass_hz(s, 1000.0, 1.0)) }
            41 => {
                let mut net = Net::new(1, 1);
                let mut inner = Net::new(1, 1);
                let from = self.parts.len();
                let a = self.node(r, d, f);
                let id = inner.push(a);
                inner.pipe_all(id, id);
                inner.pipe_input(id);
                inner.pipe_output(id);
                self.prepend(from, Fwd::At(Node(id)));
                let id2 = net.push(Box::new(inner));
                net.pipe_input(id2);
                net.pipe_output(id2);
                self.prepend(from, Fwd::At(Node(id2)));
                Box::new(net)
            }
            _ => {
                let from = self.parts.len();
                let a = self.sub(r, d, f, Fwd::At(Left));
                self.prepend(from, Fwd::At(Left));
                Box::new(a >> pan(0.3) >> join::<U2>())
            }
        };
        self.desc += ")";
        u
    }
}
