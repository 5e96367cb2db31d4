//! P07: live Net edits reach the backend whole, in order, without losing state.
use fundsp::hacker32::*;
use fundsp::net::{NodeId, Source};
use fundsp::sequencer::Fade;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use vh::dunit::*;
use vh::netmodel::*;
use vh::{audio, compare, partition, Chans, Ctx, Rec, Rng, Runner, TICK};

#[derive(Clone)]
struct FNode {
    /// Unit as the frontend knows it (never run).
    tpl: DRef,
    /// Changes whenever the unit has to be sent again.
    version: u64,
}

#[derive(Clone)]
struct Edit {
    key: u64,
    unit: DRef,
    smooth: bool,
    time: f64,
}

#[derive(Clone)]
struct Commit {
    graph: Model,
    nodes: BTreeMap<u64, FNode>,
    edits: Vec<Edit>,
    rate: f64,
}

#[derive(Clone)]
enum Msg {
    Commit(Commit),
    Set(u64, f32),
}

#[derive(Clone)]
struct BNode {
    cur: DRef,
    version: u64,
    next: Option<Edit>,
    latest: Option<Edit>,
    /// Samples faded so far.
    faded: f64,
    /// Rounding decides whether a fade ended just now.
    unclear: bool,
}

struct Back {
    graph: Model,
    nodes: BTreeMap<u64, BNode>,
    order: Vec<u64>,
    rate: f64,
    /// The end of a fade fell so close to a block boundary that rounding decides what follows.
    ambiguous: bool,
}

fn at(smooth: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if smooth {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    } else {
        (x * std::f64::consts::FRAC_PI_2).sin()
    }
}

impl Back {
    fn adopt(&mut self, c: Commit) {
        self.rate = c.rate;
        let mut nodes = BTreeMap::new();
        for (k, f) in &c.nodes {
            let b = match self.nodes.remove(k) {
                Some(b) if b.version == f.version => b,
                _ => BNode { cur: f.tpl.clone(), version: f.version, next: None, latest: None, faded: 0.0, unclear: false },
            };
            nodes.insert(*k, b);
        }
        self.nodes = nodes;
        self.order = c.graph.order().expect("acyclic");
        self.graph = c.graph;
        for e in c.edits {
            if let Some(b) = self.nodes.get_mut(&e.key) {
                self.ambiguous |= b.unclear;
                if b.next.is_some() {
                    b.latest = Some(e);
                } else {
                    b.next = Some(e);
                    b.faded = 0.0;
                }
            }
        }
    }
    fn set(&mut self, k: u64, v: f32) {
        if let Some(b) = self.nodes.get_mut(&k) {
            b.cur.bias += v;
            for e in [&mut b.next, &mut b.latest] {
                if let Some(e) = e {
                    e.unit.bias += v;
                }
            }
        }
    }
    /// Run one step: `size` samples, a block or (size 1) a tick.
    fn step(&mut self, step: usize, input: &[Vec<f32>], pos: usize, out: &mut [Vec<f32>]) {
        let tick = step == TICK;
        let size = if tick { 1 } else { step };
        let mut ended: Vec<u64> = vec![];
        if size == 0 {
            for b in self.nodes.values_mut() {
                if let Some(e) = &b.next {
                    if e.time * self.rate - b.faded < 1.2 {
                        b.unclear = true;
                        self.ambiguous |= b.latest.is_some();
                    }
                }
            }
        }
        for i in 0..size {
            let fr: Vec<f32> = input.iter().map(|c| c[pos + i]).collect();
            let mut v: HashMap<u64, Vec<f32>> = HashMap::new();
            for k in &self.order {
                let x: Vec<f32> = self.graph.nodes[k].ins.iter().map(|s| Model::eval(s, &fr, &v)).collect();
                let b = self.nodes.get_mut(k).unwrap();
                let mut y = b.cur.tick(&x);
                if let Some(e) = &mut b.next {
                    let z = e.unit.tick(&x);
                    let n = e.time * self.rate;
                    // A later change of sample rate made the fade so short that the last step shows.
                    if n < if e.smooth { 25.0 } else { 200.0 } {
                        self.ambiguous = true;
                    }
                    if b.faded < n {
                        let p = b.faded / n;
                        let (wo, wn) = (at(e.smooth, 1.0 - p) as f32, at(e.smooth, p) as f32);
                        for c in 0..y.len() {
                            y[c] = y[c] * wo + z[c] * wn;
                        }
                    } else {
                        y = z;
                    }
                    b.faded += 1.0;
                    if b.faded >= n && !ended.contains(k) {
                        ended.push(*k);
                    }
                    // The fade that follows starts at the next step: where rounding decides
                    // which step that is, do not judge.
                    let left = n - b.faded;
                    b.unclear = i + 1 == size && left.abs() < if tick { 0.2 } else { 1.2 };
                    if b.unclear && b.latest.is_some() {
                        self.ambiguous = true;
                    }
                } else {
                    b.unclear = false;
                }
                v.insert(*k, y);
            }
            for (c, s) in self.graph.outs.iter().enumerate() {
                out[c].push(Model::eval(s, &fr, &v));
            }
        }
        for k in ended {
            let b = self.nodes.get_mut(&k).unwrap();
            b.cur = b.next.take().unwrap().unit;
            b.next = b.latest.take();
            b.faded = 0.0;
        }
    }
}

struct Front {
    net: Net,
    g: Model,
    nodes: BTreeMap<u64, FNode>,
    edits: Vec<Edit>,
    rate: f64,
    next: u64,
    log: Vec<String>,
}

impl Front {
    fn id(&self, k: u64) -> NodeId {
        self.g.nodes[&k].id.unwrap()
    }
    fn key(&self, r: &mut Rng) -> Option<u64> {
        let v: Vec<u64> = self.g.nodes.keys().copied().collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }
    fn make(&mut self, r: &mut Rng, i: usize, o: usize) -> (Box<dyn AudioUnit>, DRef) {
        let seed = r.u64();
        let mut d = DRef::new(seed, i, o, true);
        d.set_rate(self.rate);
        (DUnit::boxed(seed, i, o), d)
    }
    fn uid(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn fade_time(&mut self, r: &mut Rng, smooth: bool, long: bool) -> f64 {
        let n = if smooth && !long { r.usize(25, 400) } else { r.usize(200, 600) };
        (n as f64 + 0.5) / self.rate
    }
    fn acyclic(&self) -> bool {
        self.g.order().is_some()
    }
    fn edit(&mut self, r: &mut Rng, fades: bool, q: &mut VecDeque<Msg>) -> Result<bool, String> {
        let (ni, no) = (self.g.inputs, self.g.outs.len());
        let mut faded = false;
        match r.below(if fades { 20 } else { 16 }) {
            0 | 1 => {
                if self.g.nodes.len() > 10 {
                    return Ok(false);
                }
                let (i, o) = arity(r);
                let (u, d) = self.make(r, i, o);
                let id = self.net.push(u);
                let (k, v) = (self.uid(), self.uid());
                self.g.add(k, v, 0, i, o, true, Some(id));
                self.nodes.insert(k, FNode { tpl: d, version: v });
                self.log.push(format!("push#{}({},{})", k, i, o));
            }
            2 => {
                if self.g.nodes.len() > 10 || no == 0 {
                    return Ok(false);
                }
                let (i, o) = arity(r);
                let (u, d) = self.make(r, i, o);
                let empty = self.net.size() == 0;
                let id = self.net.chain(u);
                let (k, v) = (self.uid(), self.uid());
                self.g.add(k, v, 0, i, o, true, Some(id));
                let ins: Vec<Src> = (0..i)
                    .map(|c| {
                        if empty {
                            if ni > 0 { Src::Global(c % ni) } else { Src::Zero }
                        } else {
                            self.g.outs[c % no].clone()
                        }
                    })
                    .collect();
                self.g.nodes.get_mut(&k).unwrap().ins = ins;
                self.g.outs = (0..no).map(|c| if o > 0 { Src::Node(k, c % o) } else { Src::Zero }).collect();
                self.nodes.insert(k, FNode { tpl: d, version: v });
                self.log.push(format!("chain#{}({},{})", k, i, o));
            }
            3..=5 => {
                let Some(b) = self.key(r) else { return Ok(false) };
                let nb = self.g.nodes[&b].ni;
                if nb == 0 {
                    return Ok(false);
                }
                let q = r.below(nb);
                let old = self.g.nodes[&b].ins[q].clone();
                if ni > 0 && r.chance(0.3) {
                    let p = r.below(ni);
                    self.net.connect_input(p, self.id(b), q);
                    self.g.nodes.get_mut(&b).unwrap().ins[q] = Src::Global(p);
                } else {
                    let Some(a) = self.key(r) else { return Ok(false) };
                    let na = self.g.nodes[&a].no;
                    if a == b || na == 0 {
                        return Ok(false);
                    }
                    let p = r.below(na);
                    self.g.nodes.get_mut(&b).unwrap().ins[q] = Src::Node(a, p);
                    if !self.acyclic() {
                        self.g.nodes.get_mut(&b).unwrap().ins[q] = old;
                        return Ok(false);
                    }
                    self.net.connect(self.id(a), p, self.id(b), q);
                    self.log.push(format!("connect {}.{}->{}.{}", a, p, b, q));
                }
            }
            6 | 7 => {
                let Some(a) = self.key(r) else { return Ok(false) };
                let na = self.g.nodes[&a].no;
                if na == 0 || no == 0 {
                    return Ok(false);
                }
                let (p, q) = (r.below(na), r.below(no));
                self.net.connect_output(self.id(a), p, q);
                self.g.outs[q] = Src::Node(a, p);
                self.log.push(format!("connect_output {}.{}->{}", a, p, q));
            }
            8 => {
                if no == 0 {
                    return Ok(false);
                }
                let q = r.below(no);
                self.net.set_output_source(q, Source::Zero);
                self.g.outs[q] = Src::Zero;
                self.log.push(format!("out {} zero", q));
            }
            9 => {
                let Some(a) = self.key(r) else { return Ok(false) };
                let n = self.g.nodes[&a].clone();
                let link = n.ni == n.no && r.chance(0.5);
                let id = self.id(a);
                if link {
                    self.net.remove_link(id);
                } else {
                    self.net.remove(id);
                }
                self.g.remove(a, link);
                self.nodes.remove(&a);
                self.edits.retain(|e| e.key != a);
                self.log.push(format!("remove {} link {}", a, link));
            }
            10 | 11 => {
                let Some(a) = self.key(r) else { return Ok(false) };
                let n = self.g.nodes[&a].clone();
                let (u, d) = self.make(r, n.ni, n.no);
                let v = self.uid();
                self.net.replace(self.id(a), u);
                self.nodes.insert(a, FNode { tpl: d, version: v });
                self.edits.retain(|e| e.key != a);
                self.log.push(format!("replace {}", a));
            }
            12..=14 => {
                // Setting.
                let Some(a) = self.key(r) else { return Ok(false) };
                let v = r.f(0.05, 0.5);
                self.net.set(Setting::value(v).node(self.id(a)));
                self.nodes.get_mut(&a).unwrap().tpl.bias += v;
                self.edits.iter_mut().filter(|e| e.key == a).for_each(|e| e.unit.bias += v);
                q.push_back(Msg::Set(a, v));
                self.log.push(format!("set {} += {}", a, v));
            }
            15 => {
                if r.chance(0.5) {
                    let sr = vh::rate(r);
                    let same = sr as f32 == self.rate as f32;
                    self.net.set_sample_rate(sr);
                    if !same {
                        self.rate = sr;
                        let keys: Vec<u64> = self.nodes.keys().copied().collect();
                        for k in keys {
                            let v = self.uid();
                            let n = self.nodes.get_mut(&k).unwrap();
                            n.tpl.set_rate(sr);
                            n.version = v;
                        }
                        self.edits.iter_mut().for_each(|e| e.unit.set_rate(sr));
                        // Keep the fade lengths at harmless values.
                        faded = true;
                    }
                    self.log.push(format!("set_sample_rate {}", sr));
                } else {
                    self.net.reset();
                    let keys: Vec<u64> = self.nodes.keys().copied().collect();
                    for k in keys {
                        let v = self.uid();
                        let n = self.nodes.get_mut(&k).unwrap();
                        n.version = v;
                    }
                    self.log.push("reset".into());
                }
            }
            16..=18 => return self.crossfade(r),
            _ => {
                if self.g.nodes.len() > 10 {
                    return Ok(false);
                }
                let (i, o) = arity(r);
                let (u, d) = self.make(r, i, o);
                let smooth = r.chance(0.5);
                let time = self.fade_time(r, smooth, true);
                let id = self.net.fade_in(if smooth { Fade::Smooth } else { Fade::Power }, time as f32, u);
                let (k, v) = (self.uid(), self.uid());
                self.g.add(k, v, 0, i, o, true, Some(id));
                // Silent unit first.
                self.nodes.insert(k, FNode { tpl: silent(i, o), version: v });
                self.edits.push(Edit { key: k, unit: d, smooth, time });
                if no > 0 && o > 0 {
                    let (p, q) = (r.below(o), r.below(no));
                    self.net.connect_output(id, p, q);
                    self.g.outs[q] = Src::Node(k, p);
                }
                self.log.push(format!("fade_in#{}({},{}) smooth {} samples {}", k, i, o, smooth, time * self.rate));
                faded = true;
            }
        }
        Ok(faded)
    }
    fn crossfade(&mut self, r: &mut Rng) -> Result<bool, String> {
        let Some(a) = self.key(r) else { return Ok(false) };
        let n = self.g.nodes[&a].clone();
        let (u, d) = self.make(r, n.ni, n.no);
        let smooth = r.chance(0.5);
        let time = self.fade_time(r, smooth, true);
        self.net.crossfade(self.id(a), if smooth { Fade::Smooth } else { Fade::Power }, time as f32, u);
        self.edits.push(Edit { key: a, unit: d, smooth, time });
        self.log.push(format!("crossfade {} smooth {} samples {}", a, smooth, time * self.rate));
        Ok(true)
    }
    fn commit(&mut self, q: &mut VecDeque<Msg>) {
        if self.net.has_backend() {
            self.net.commit();
        }
        q.push_back(Msg::Commit(Commit { graph: self.g.clone(), nodes: self.nodes.clone(), edits: self.edits.clone(), rate: self.rate }));
        // From here on the frontend has the units faded into.
        for e in std::mem::take(&mut self.edits) {
            if let Some(n) = self.nodes.get_mut(&e.key) {
                n.tpl = e.unit;
            }
        }
        self.log.push("commit".into());
    }
}

/// Reference of the silent unit of fade_in: a mute reference.
fn silent(i: usize, o: usize) -> DRef {
    DRef::mute(i, o)
}

fn case(rec: &mut Rec, fades: bool) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let (i, o) = (r.below(3), r.usize(1, 3));
    let rate = if r.chance(0.5) { DEFAULT_SR } else { 48000.0 };
    let mut f = Front { net: Net::new(i, o), g: Model::new(i, o), nodes: BTreeMap::new(), edits: vec![], rate: DEFAULT_SR, next: 0, log: vec![format!("Net::new({},{})", i, o)] };
    f.net.set_sample_rate(rate);
    f.rate = rate;
    let mut q: VecDeque<Msg> = VecDeque::new();
    let mut any_fade = false;
    for _ in 0..r.below(10) {
        // No fades before the backend exists.
        f.edit(&mut r, false, &mut q)?;
    }
    q.clear();
    let mut back_unit = f.net.backend();
    let mut back = Back { graph: Model::new(i, o), nodes: BTreeMap::new(), order: vec![], rate: f.rate, ambiguous: false };
    back.adopt(Commit { graph: f.g.clone(), nodes: f.nodes.clone(), edits: vec![], rate: f.rate });
    f.log.push("backend".into());
    let rounds = r.usize(1, 12);
    let eager = r.chance(0.3);
    for _ in 0..rounds {
        for _ in 0..r.below(4) {
            for _ in 0..r.below(5) {
                any_fade |= f.edit(&mut r, fades, &mut q)?;
                rec.count("edits", 1);
            }
            if r.chance(0.8) || eager {
                f.commit(&mut q);
                rec.count("commits", 1);
            }
        }
        rec.ctx = f.log.join("; ");
        let n = r.usize(1, 300);
        let x: Chans = (0..i).map(|_| audio(&mut r, n)).collect();
        let steps = partition(&mut r, n);
        let mut run = Runner::new(&back_unit);
        let mut got: Chans = vec![vec![]; o];
        let mut want: Chans = vec![vec![]; o];
        if q.len() > 1 {
            rec.count("queued_messages_over_1", 1);
        }
        let mut pos = 0;
        for &s in &steps {
            // Everything sent so far is in effect at the next block.
            while let Some(m) = q.pop_front() {
                match m {
                    Msg::Commit(c) => back.adopt(c),
                    Msg::Set(k, v) => back.set(k, v),
                }
            }
            run.step(&mut back_unit, s, &x, &mut got);
            let n = if s == TICK { 1 } else { s };
            back.step(s, &x, pos, &mut want);
            pos += n;
            rec.count("blocks", 1);
            if back.ambiguous {
                rec.count("ambiguous_rounding_skipped", 1);
                return Ok(());
            }
            // Frontend may act between blocks.
            if r.chance(0.1) {
                any_fade |= f.edit(&mut r, fades, &mut q)?;
                if r.chance(0.7) {
                    f.commit(&mut q);
                    rec.count("commits", 1);
                }
            }
        }
        f.log.push(format!("render {}", n));
        rec.ctx = f.log.join("; ");
        let amp = want.iter().flatten().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
        let tol = if any_fade { 0.02 * amp } else { 2e-4 * amp };
        rec.count("samples_compared", (n * o) as u64);
        if vh::nontrivial(&want) {
            rec.distinct(&rec.ctx.clone());
        }
        compare(&want, &got, tol, 0.0).map_err(|e| format!("{} (model of the backend vs backend)", e))?;
    }
    rec.sample = Some(rec.ctx.chars().take(300).collect());
    Ok(())
}

/// Blocks of 16 to 64 samples.
fn partition_large(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = Ord::min(left, r.usize(16, 64));
        v.push(k);
        left -= k;
    }
    v
}

/// Crossfades queued on crossfades, of a network and of a backend.
fn chained(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let (i, o) = (r.below(3), r.usize(1, 3));
    let rate = *r.pick(&[DEFAULT_SR, 48000.0, 22050.0]);
    let live = r.chance(0.6);
    let mut f = Front { net: Net::new(i, o), g: Model::new(i, o), nodes: BTreeMap::new(), edits: vec![], rate, next: 0, log: vec![format!("Net::new({},{}) rate {} backend {}", i, o, rate, live)] };
    f.net.set_sample_rate(rate);
    for c in 0..o {
        if c > 0 && r.chance(0.4) {
            continue;
        }
        let ni = r.below(3);
        let no = r.usize(1, 2);
        let (u, d) = f.make(&mut r, ni, no);
        let id = f.net.push(u);
        let (k, v) = (f.uid(), f.uid());
        f.g.add(k, v, 0, ni, no, true, Some(id));
        f.nodes.insert(k, FNode { tpl: d, version: v });
        for p in 0..ni {
            if i > 0 {
                let s = r.below(i);
                f.net.connect_input(s, id, p);
                f.g.nodes.get_mut(&k).unwrap().ins[p] = Src::Global(s);
            }
        }
        let p = r.below(no);
        f.net.connect_output(id, p, c);
        f.g.outs[c] = Src::Node(k, p);
    }
    let mut q: VecDeque<Msg> = VecDeque::new();
    let mut unit: Option<Box<dyn AudioUnit>> = if live { Some(Box::new(f.net.backend())) } else { None };
    let mut back = Back { graph: Model::new(i, o), nodes: BTreeMap::new(), order: vec![], rate, ambiguous: false };
    back.adopt(Commit { graph: f.g.clone(), nodes: f.nodes.clone(), edits: vec![], rate });
    let mut chains = 0;
    for _ in 0..r.usize(3, 10) {
        for _ in 0..r.below(4) {
            f.crossfade(&mut r)?;
            if !live || r.chance(0.7) {
                f.commit(&mut q);
            }
        }
        let n = r.usize(1, 700);
        let x: Chans = (0..i).map(|_| audio(&mut r, n)).collect();
        let steps = if r.chance(0.5) { partition(&mut r, n) } else { partition_large(&mut r, n) };
        let mut got: Chans = vec![vec![]; o];
        let mut want: Chans = vec![vec![]; o];
        let mut pos = 0;
        while let Some(m) = q.pop_front() {
            if let Msg::Commit(c) = m {
                back.adopt(c);
            }
        }
        chains += back.nodes.values().filter(|b| b.latest.is_some()).count();
        let u: &mut dyn AudioUnit = match &mut unit {
            Some(u) => u.as_mut(),
            None => &mut f.net,
        };
        let mut run = Runner::new(u);
        for &s in &steps {
            run.step(u, s, &x, &mut got);
            let n = if s == TICK { 1 } else { s };
            back.step(s, &x, pos, &mut want);
            pos += n;
            if back.ambiguous {
                rec.count("ambiguous_rounding_skipped", 1);
                return Ok(());
            }
        }
        f.log.push(format!("render {}", n));
        rec.ctx = f.log.join("; ");
        let amp = want.iter().flatten().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
        rec.count("samples_compared", (n * o) as u64);
        compare(&want, &got, 0.02 * amp, 0.0).map_err(|e| format!("{} (model of queued crossfades vs {})", e, if live { "backend" } else { "Net" }))?;
    }
    rec.count("crossfades_queued_on_a_crossfade", chains as u64);
    if chains > 0 {
        rec.distinct(&rec.ctx.clone());
    }
    Ok(())
}

/// Plain Net: crossfade and fade_in without a backend.
fn plain_fade(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let (i, o) = *r.pick(&[(0, 1), (1, 1), (2, 2), (0, 2)]);
    let rate = vh::rate(&mut r);
    let late = r.chance(0.5);
    let mut net = Net::new(i, o);
    let (s1, s2) = (r.u64(), r.u64());
    let mut a = DRef::new(s1, i, o, true);
    let mut b = DRef::new(s2, i, o, true);
    a.set_rate(rate);
    b.set_rate(rate);
    if !late {
        net.set_sample_rate(rate);
    }
    let smooth = r.chance(0.5);
    let n = r.usize(60, 900);
    let time = n as f64 / rate;
    let fade = if smooth { Fade::Smooth } else { Fade::Power };
    let into = r.chance(0.3);
    let id = if into {
        net.fade_in(fade, time as f32, DUnit::boxed(s2, i, o))
    } else {
        let id = net.push(DUnit::boxed(s1, i, o));
        net.crossfade(id, fade, time as f32, DUnit::boxed(s2, i, o));
        id
    };
    net.pipe_input(id);
    net.pipe_output(id);
    if late {
        net.set_sample_rate(rate);
    }
    let total = n + r.usize(3, 200);
    let x: Chans = (0..i).map(|_| audio(&mut r, total)).collect();
    let p = partition(&mut r, total);
    rec.ctx = format!("fade_in {} smooth {} length {} samples at {} rate set {} crossfade", into, smooth, n, rate, if late { "after" } else { "before" });
    let got = vh::render(&mut net, &x, &p);
    let mut want: Chans = vec![vec![]; o];
    for k in 0..total {
        let fr: Vec<f32> = x.iter().map(|c| c[k]).collect();
        let y = a.tick(&fr);
        let z = b.tick(&fr);
        let ph = k as f64 / n as f64;
        let (wo, wn) = if into { (0.0, at(smooth, ph)) } else { (at(smooth, 1.0 - ph), at(smooth, ph)) };
        for c in 0..o {
            want[c].push((y[c] as f64 * wo + z[c] as f64 * wn) as f32);
        }
    }
    // The last sample or two of an equal power fade may be cut by rounding.
    let tol = (if smooth { 0.002 } else { 0.002 + 3.2 / n as f64 }) * want.iter().flatten().fold(1.0f32, |m, x| m.max(x.abs())) as f64;
    rec.count("samples_compared", (total * o) as u64);
    rec.distinct(&rec.ctx.clone());
    compare(&want, &got, tol, 0.0).map_err(|e| format!("{} (complementary crossfade vs Net)", e))?;
    Ok(())
}

/// Unit that outputs its version number on every channel and counts samples.
#[derive(Clone)]
struct Ver {
    v: f32,
    o: usize,
}
impl AudioUnit for Ver {
    fn inputs(&self) -> usize { 0 }
    fn outputs(&self) -> usize { self.o }
    fn tick(&mut self, _i: &[f32], o: &mut [f32]) { o.fill(self.v) }
    fn process(&mut self, n: usize, _i: &BufferRef, o: &mut BufferMut) {
        for c in 0..self.o {
            o.channel_f32_mut(c)[..n].fill(self.v);
        }
    }
    fn route(&mut self, i: &SignalFrame, _f: f64) -> SignalFrame { Routing::Generator(0.0).route(i, self.o) }
    fn get_id(&self) -> u64 { 900010 }
    fn footprint(&self) -> usize { 0 }
}

#[derive(Clone)]
struct Count(u64);
impl AudioUnit for Count {
    fn inputs(&self) -> usize { 0 }
    fn outputs(&self) -> usize { 1 }
    fn reset(&mut self) { self.0 = 0 }
    fn tick(&mut self, _i: &[f32], o: &mut [f32]) {
        o[0] = (self.0 % 1048576) as f32;
        self.0 += 1;
    }
    fn process(&mut self, n: usize, _i: &BufferRef, o: &mut BufferMut) {
        for k in 0..n {
            o.channel_f32_mut(0)[k] = (self.0 % 1048576) as f32;
            self.0 += 1;
        }
    }
    fn route(&mut self, i: &SignalFrame, _f: f64) -> SignalFrame { Routing::Generator(0.0).route(i, 1) }
    fn get_id(&self) -> u64 { 900011 }
    fn footprint(&self) -> usize { 0 }
}

/// Frontend and backend on real threads: every block belongs to one commit, in order.
fn threads(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let mut net = Net::new(0, 5);
    let count = net.push(Box::new(Count(0)));
    let mut a = net.push(Box::new(Ver { v: 0.0, o: 1 }));
    let mut b = net.push(Box::new(Ver { v: 0.0, o: 2 }));
    let adder = net.push(Box::new(DUnitSum { bias: 0.0 }));
    net.connect_output(a, 0, 0);
    net.connect_output(b, 0, 1);
    net.connect_output(b, 1, 2);
    net.connect_output(count, 0, 3);
    net.connect(a, 0, adder, 0);
    net.connect_output(adder, 0, 4);
    let mut back = net.backend();
    let commits = r.usize(5, 60);
    let done = Arc::new(AtomicBool::new(false));
    let sent = Arc::new(AtomicU64::new(0));
    let (done2, sent2) = (done.clone(), sent.clone());
    let mut r2 = r.fork();
    let h = std::thread::spawn(move || -> Result<(u64, u64, u64), String> {
        let mut last = -1.0f32;
        let mut sample = 0u64;
        let mut seen = 0u64;
        let mut blocks = 0u64;
        let mut tail = 3;
        let mut sum_bias = -1.0f32;
        loop {
            let finished = done2.load(Ordering::SeqCst);
            // Commits completed before this block has to be seen by it.
            let at_least = sent2.load(Ordering::SeqCst) as f32;
            let n = r2.usize(1, 64);
            let mut ib = BufferVec::new(0);
            let mut ob = BufferVec::new(5);
            let ticked = r2.chance(0.2);
            let n = if ticked { 1 } else { n };
            if ticked {
                let mut o = [0.0f32; 5];
                back.tick(&[], &mut o);
                for c in 0..5 {
                    ob.channel_f32_mut(c)[0] = o[c];
                }
            } else {
                back.process(n, &ib.buffer_ref(), &mut ob.buffer_mut());
            }
            let _ = &mut ib;
            blocks += 1;
            let v = ob.channel_f32(0)[0];
            for k in 0..n {
                for c in 0..3 {
                    let y = ob.channel_f32(c)[k];
                    if y != v {
                        return Err(format!("block mixes versions: channel {} sample {} is {} and first is {}", c, k, y, v));
                    }
                }
                let y = ob.channel_f32(3)[k];
                if y != (sample % 1048576) as f32 {
                    return Err(format!("untouched node lost its state: {} expected {}", y, sample));
                }
                let y = ob.channel_f32(4)[k] - v;
                if k == 0 && y < sum_bias {
                    return Err(format!("settings went backwards: {} after {}", y, sum_bias));
                }
                if k == 0 {
                    sum_bias = y;
                }
                sample += 1;
            }
            if v < last {
                return Err(format!("commit {} rendered after {}", v, last));
            }
            if v < at_least {
                return Err(format!("commit {} was complete before the block but {} was rendered", at_least, v));
            }
            if v > last {
                seen += 1;
            }
            last = v;
            if finished {
                tail -= 1;
                if tail == 0 {
                    break;
                }
            }
            if r2.chance(0.1) {
                std::thread::yield_now();
            }
        }
        // All settings arrived exactly once (each adds 1).
        Ok((seen, blocks, ((sum_bias + last) - last) as u64 + ((last as u64) << 32)))
    });
    let mut sets = 0u64;
    for v in 1..=commits {
        let f = v as f32;
        // Several edits that only make sense together.
        match r.below(3) {
            0 => {
                net.replace(a, Box::new(Ver { v: f, o: 1 }));
                net.replace(b, Box::new(Ver { v: f, o: 2 }));
            }
            1 => {
                net.remove(a);
                a = net.push(Box::new(Ver { v: f, o: 1 }));
                net.connect_output(a, 0, 0);
                net.connect(a, 0, adder, 0);
                net.replace(b, Box::new(Ver { v: f, o: 2 }));
            }
            _ => {
                net.remove(b);
                net.replace(a, Box::new(Ver { v: f, o: 1 }));
                b = net.push(Box::new(Ver { v: f, o: 2 }));
                net.connect_output(b, 1, 1);
                net.connect_output(b, 0, 2);
            }
        }
        if r.chance(0.3) {
            net.set(Setting::value(1.0).node(adder));
            sets += 1;
        }
        net.commit();
        sent.store(v as u64, Ordering::SeqCst);
        match r.below(4) {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(std::time::Duration::from_micros(r.below(200) as u64)),
            _ => (),
        }
    }
    done.store(true, Ordering::SeqCst);
    let (seen, blocks, res) = h.join().map_err(|_| "backend thread panicked".to_string())??;
    let (bias, last) = (res & 0xffffffff, res >> 32);
    if last != commits as u64 {
        return Err(format!("last commit {} was never rendered, ended with {}", commits, last));
    }
    if bias != sets {
        return Err(format!("{} settings sent, {} applied", sets, bias));
    }
    rec.count("thread_commits", commits as u64);
    rec.count("thread_versions_seen", seen);
    rec.count("thread_blocks", blocks);
    rec.distinct(&format!("{}/{}/{}", seen, blocks, commits));
    Ok(())
}

/// Passes input and adds what settings added up to.
#[derive(Clone)]
struct DUnitSum {
    bias: f32,
}
impl AudioUnit for DUnitSum {
    fn inputs(&self) -> usize { 1 }
    fn outputs(&self) -> usize { 1 }
    fn tick(&mut self, i: &[f32], o: &mut [f32]) { o[0] = i[0] + self.bias }
    fn process(&mut self, n: usize, i: &BufferRef, o: &mut BufferMut) {
        for k in 0..n {
            o.channel_f32_mut(0)[k] = i.channel_f32(0)[k] + self.bias;
        }
    }
    fn set(&mut self, s: Setting) {
        if let fundsp::setting::Parameter::Value(v) = s.parameter() {
            self.bias += *v;
        }
    }
    fn route(&mut self, i: &SignalFrame, _f: f64) -> SignalFrame { Routing::Arbitrary(0.0).route(i, 1) }
    fn get_id(&self) -> u64 { 900012 }
    fn footprint(&self) -> usize { 0 }
}

fn main() {
    let mut ctx = Ctx::new(
        "P07",
        "frontend edit/commit/setting histories interleaved with backend blocks, compared with a model that keeps per-node state, versions and fades; real-thread stress with version-stamped commits; distinct nontrivial = distinct histories with nonzero output, distinct (versions seen, blocks, commits) triples",
    );
    let n = ctx.scale(40000, 1500000);
    ctx.par("interleaved", n, |_i, rec| case(rec, false));
    ctx.par("interleaved_fades", n, |_i, rec| case(rec, true));
    ctx.par("chained_crossfades", ctx.scale(6000, 200000), |_i, rec| chained(rec));
    ctx.par("plain_crossfade", ctx.scale(9000, 300000), |_i, rec| plain_fade(rec));
    ctx.par("threads", ctx.scale(4500, 120000), |_i, rec| threads(rec));
    ctx.assumptions.push("at most 1024 messages wait in the frontend channel; frontend sample rate equals the rate the backend runs at".into());
    ctx.finish()
}
