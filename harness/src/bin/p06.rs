//! P06: a Net computes the graph its edit history describes.
use fundsp::hacker32::*;
use fundsp::net::{NetError, NodeId, Source};
use std::collections::HashSet;
use vh::dunit::*;
use vh::netmodel::*;
use vh::tnode::t;
use vh::{audio, compare, partition, render, Chans, Ctx, Rec, Rng};

struct Sys {
    net: Net,
    m: Model,
    st: States,
    /// Net has unnamed units of operators.
    opaque: bool,
    removed: Vec<NodeId>,
    log: Vec<String>,
    rate: f64,
}

struct Ids(u64);
impl Ids {
    fn next(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}

impl Sys {
    fn new(r: &mut Rng, ids: &mut Ids, i: usize, o: usize) -> Sys {
        let mut s = Sys {
            net: Net::new(i, o),
            m: Model::new(i, o),
            st: States::new(),
            opaque: false,
            removed: vec![],
            log: vec![format!("Net::new({},{})", i, o)],
            rate: DEFAULT_SR,
        };
        match r.below(8) {
            0 if i + o > 0 => {
                let seed = r.u64();
                let (u, st) = unit(seed, i, o, s.rate);
                let id;
                if r.chance(0.5) {
                    let (n, x) = Net::wrap_id(u);
                    s.net = n;
                    id = Some(x);
                } else {
                    s.net = Net::wrap(u);
                    id = s.net.ids().next().copied();
                }
                let (k, uid) = (ids.next(), ids.next());
                s.st.insert(uid, st);
                s.m.add(k, uid, seed, i, o, true, id);
                s.m.nodes.get_mut(&k).unwrap().ins = (0..i).map(Src::Global).collect();
                s.m.outs = (0..o).map(|p| Src::Node(k, p)).collect();
                s.log = vec![format!("wrap({},{})", i, o)];
            }
            1 if i == 0 && o > 0 => {
                let c = r.f(-1.0, 1.0);
                s.net = Net::scalar(o, c);
                s.m.outs = vec![Src::Const(c); o];
                s.opaque = true;
                s.log = vec![format!("scalar({})", o)];
            }
            _ => (),
        }
        s
    }

    fn key(&self, r: &mut Rng) -> Option<u64> {
        let v = self.m.named();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }
    fn id(&self, k: u64) -> NodeId {
        self.m.nodes[&k].id.unwrap()
    }

    /// Random edit of the network and the model.
    fn edit(&mut self, r: &mut Rng, ids: &mut Ids, depth: usize) -> Result<(), String> {
        let choice = r.below(24);
        let ni = self.m.inputs;
        let no = self.m.outs.len();
        match choice {
            0..=3 => {
                if self.m.nodes.len() > 24 {
                    return Ok(());
                }
                let (i, o) = arity(r);
                let seed = r.u64();
                let (u, st) = unit(seed, i, o, self.rate);
                let (k, uid) = (ids.next(), ids.next());
                self.st.insert(uid, st);
                let id = self.net.push(u);
                self.m.add(k, uid, seed, i, o, true, Some(id));
                self.log.push(format!("push#{}({},{})", k, i, o));
            }
            4..=5 => {
                // chain
                if self.m.nodes.len() > 24 {
                    return Ok(());
                }
                let (i, o) = arity(r);
                let seed = r.u64();
                let (u, st) = unit(seed, i, o, self.rate);
                let (k, uid) = (ids.next(), ids.next());
                self.st.insert(uid, st);
                let empty = self.net.size() == 0;
                let id = self.net.chain(u);
                self.m.add(k, uid, seed, i, o, true, Some(id));
                let ins: Vec<Src> = (0..i)
                    .map(|c| {
                        if empty {
                            if ni > 0 { Src::Global(c % ni) } else { Src::Zero }
                        } else if no > 0 {
                            self.m.outs[c % no].clone()
                        } else {
                            Src::Zero
                        }
                    })
                    .collect();
                self.m.nodes.get_mut(&k).unwrap().ins = ins;
                self.m.outs = (0..no).map(|c| if o > 0 { Src::Node(k, c % o) } else { Src::Zero }).collect();
                self.log.push(format!("chain#{}({},{})", k, i, o));
            }
            6..=8 => {
                // connect or set_source
                let (Some(a), Some(b)) = (self.key(r), self.key(r)) else { return Ok(()) };
                let (na, nb) = (self.m.nodes[&a].no, self.m.nodes[&b].ni);
                if a == b || na == 0 || nb == 0 {
                    return Ok(());
                }
                let (p, q) = (r.below(na), r.below(nb));
                if r.chance(0.6) {
                    self.net.connect(self.id(a), p, self.id(b), q);
                    self.log.push(format!("connect {}.{} -> {}.{}", a, p, b, q));
                } else {
                    self.net.set_source(self.id(b), q, Source::Local(self.id(a), p));
                    self.log.push(format!("set_source {}.{} = {}.{}", b, q, a, p));
                }
                self.m.nodes.get_mut(&b).unwrap().ins[q] = Src::Node(a, p);
            }
            9 => {
                let Some(b) = self.key(r) else { return Ok(()) };
                let nb = self.m.nodes[&b].ni;
                if nb == 0 || ni == 0 {
                    return Ok(());
                }
                let (p, q) = (r.below(ni), r.below(nb));
                if r.chance(0.6) {
                    self.net.connect_input(p, self.id(b), q);
                } else {
                    self.net.set_source(self.id(b), q, Source::Global(p));
                }
                self.log.push(format!("connect_input {} -> {}.{}", p, b, q));
                self.m.nodes.get_mut(&b).unwrap().ins[q] = Src::Global(p);
            }
            10 | 11 => {
                let Some(a) = self.key(r) else { return Ok(()) };
                let na = self.m.nodes[&a].no;
                if na == 0 || no == 0 {
                    return Ok(());
                }
                let (p, q) = (r.below(na), r.below(no));
                if r.chance(0.6) {
                    self.net.connect_output(self.id(a), p, q);
                } else {
                    self.net.set_output_source(q, Source::Local(self.id(a), p));
                }
                self.log.push(format!("connect_output {}.{} -> out {}", a, p, q));
                self.m.outs[q] = Src::Node(a, p);
            }
            12 => {
                let Some(a) = self.key(r) else { return Ok(()) };
                if r.chance(0.5) {
                    self.net.pipe_input(self.id(a));
                    let n = self.m.nodes.get_mut(&a).unwrap();
                    for c in 0..n.ni {
                        n.ins[c] = if ni > 0 { Src::Global(c % ni) } else { Src::Zero };
                    }
                    self.log.push(format!("pipe_input {}", a));
                } else {
                    self.net.pipe_output(self.id(a));
                    let o = self.m.nodes[&a].no;
                    self.m.outs = (0..no).map(|c| if o > 0 { Src::Node(a, c % o) } else { Src::Zero }).collect();
                    self.log.push(format!("pipe_output {}", a));
                }
            }
            13 => {
                let (Some(a), Some(b)) = (self.key(r), self.key(r)) else { return Ok(()) };
                self.net.pipe_all(self.id(a), self.id(b));
                if a != b {
                    let o = self.m.nodes[&a].no;
                    let n = self.m.nodes.get_mut(&b).unwrap();
                    for c in 0..n.ni {
                        n.ins[c] = if o > 0 { Src::Node(a, c % o) } else { Src::Zero };
                    }
                }
                self.log.push(format!("pipe_all {} -> {}", a, b));
            }
            14 => {
                if no == 0 {
                    return Ok(());
                }
                let q = r.below(no);
                if ni > 0 && r.chance(0.6) {
                    let p = r.below(ni);
                    if r.chance(0.5) {
                        self.net.pass_through(p, q);
                    } else {
                        self.net.set_output_source(q, Source::Global(p));
                    }
                    self.m.outs[q] = Src::Global(p);
                    self.log.push(format!("pass_through {} -> {}", p, q));
                } else {
                    if r.chance(0.5) {
                        self.net.disconnect_output(q);
                    } else {
                        self.net.set_output_source(q, Source::Zero);
                    }
                    self.m.outs[q] = Src::Zero;
                    self.log.push(format!("disconnect_output {}", q));
                }
            }
            15 => {
                let Some(a) = self.key(r) else { return Ok(()) };
                let n = self.m.nodes[&a].ni;
                if n == 0 {
                    return Ok(());
                }
                let q = r.below(n);
                if r.chance(0.5) {
                    self.net.disconnect(self.id(a), q);
                } else {
                    self.net.set_source(self.id(a), q, Source::Zero);
                }
                self.m.nodes.get_mut(&a).unwrap().ins[q] = Src::Zero;
                self.log.push(format!("disconnect {}.{}", a, q));
            }
            16 | 17 => {
                let Some(a) = self.key(r) else { return Ok(()) };
                let n = self.m.nodes[&a].clone();
                let mut own = vec![];
                n.ins.iter().for_each(|s| s.nodes(&mut own));
                // (A node in a cycle with an unnamed operator unit: the model cannot name the outcome.)
                let link = n.ni == n.no && r.chance(0.6) && !own.contains(&a);
                let id = self.id(a);
                let u = if link { self.net.remove_link(id) } else { self.net.remove(id) };
                self.m.remove(a, link);
                self.removed.push(id);
                self.log.push(format!("remove{} {}", if link { "_link" } else { "" }, a));
                let st = self.st.remove(&n.uid).unwrap();
                same_unit(r, u, st, "remove")?;
            }
            18 => {
                let Some(a) = self.key(r) else { return Ok(()) };
                let n = self.m.nodes[&a].clone();
                let seed = r.u64();
                let (u, st) = unit(seed, n.ni, n.no, self.rate);
                let uid = ids.next();
                let old = self.net.replace(self.id(a), u);
                self.st.insert(uid, st);
                let x = self.m.nodes.get_mut(&a).unwrap();
                x.uid = uid;
                x.rich = true;
                x.seed = seed;
                self.log.push(format!("replace {}", a));
                let st = self.st.remove(&n.uid).unwrap();
                same_unit(r, old, st, "replace")?;
            }
            19 => {
                let sr = if r.chance(0.5) { self.rate } else { vh::rate(r) };
                self.set_rate(sr);
            }
            20 => {
                if r.chance(0.3) {
                    self.net.reset();
                    self.st.values_mut().for_each(|s| s.reset());
                    self.log.push("reset".into());
                } else if r.chance(0.5) {
                    self.net.allocate();
                    self.log.push("allocate".into());
                } else {
                    // Continue with a clone.
                    self.net = self.net.clone();
                    self.log.push("clone".into());
                }
            }
            _ => {
                if depth > 0 && self.m.nodes.len() < 16 {
                    self.operator(r, ids, depth)?;
                }
            }
        }
        Ok(())
    }

    fn set_rate(&mut self, sr: f64) {
        self.net.set_sample_rate(sr);
        self.st.values_mut().for_each(|s| s.set_rate(sr));
        self.rate = sr;
        self.log.push(format!("set_sample_rate {}", sr));
    }

    fn operator(&mut self, r: &mut Rng, ids: &mut Ids, depth: usize) -> Result<(), String> {
        let (ni, no) = (self.m.inputs, self.m.outs.len());
        let kind = r.below(13);
        let me = std::mem::replace(&mut self.net, Net::new(0, 0));
        // Unary and scalar forms.
        if kind >= 7 {
            let c = r.f(-1.0, 1.0);
            let e = |o: Op, a: Src, b: Src| Src::Expr(o, Box::new(a), Box::new(b));
            let outs = self.m.outs.clone();
            let f: Box<dyn Fn(Src) -> Src> = match kind {
                7 => {
                    self.net = -me;
                    Box::new(move |s| e(Op::Sub, Src::Const(0.0), s))
                }
                8 => {
                    self.net = me + c;
                    Box::new(move |s| e(Op::Add, s, Src::Const(c)))
                }
                9 => {
                    self.net = c + me;
                    Box::new(move |s| e(Op::Add, Src::Const(c), s))
                }
                10 => {
                    if r.chance(0.5) {
                        self.net = me - c;
                        Box::new(move |s| e(Op::Sub, s, Src::Const(c)))
                    } else {
                        self.net = c - me;
                        Box::new(move |s| e(Op::Sub, Src::Const(c), s))
                    }
                }
                11 => {
                    if r.chance(0.5) {
                        self.net = me * c;
                        Box::new(move |s| e(Op::Mul, s, Src::Const(c)))
                    } else {
                        self.net = c * me;
                        Box::new(move |s| e(Op::Mul, Src::Const(c), s))
                    }
                }
                _ => {
                    self.net = !me;
                    self.log.push("thru".into());
                    let mut o: Vec<Src> = outs[..Ord::min(no, ni)].to_vec();
                    while o.len() < ni {
                        o.push(Src::Global(o.len()));
                    }
                    self.m.outs = o;
                    return Ok(());
                }
            };
            self.m.outs = outs.into_iter().map(f).collect();
            self.opaque = true;
            self.log.push(format!("scalar op {}", kind));
            return Ok(());
        }
        // Needed arity of the other operand.
        let (oi, oo) = match kind {
            0 => (no, r.below(4)),           // pipe self >> other
            1 => (r.below(3), ni),           // pipe other >> self
            2 => (ni, no),                   // bus
            3 => (ni, r.below(3)),           // branch
            4 => (r.below(3), r.below(3)),   // stack
            _ => (r.below(3), no),           // sum, product, difference
        };
        if ni + oi > 6 || no + oo > 6 {
            self.net = me;
            return Ok(());
        }
        let flip = kind == 1 || (kind > 1 && r.chance(0.5));
        let sub = r.below(3);
        // Operand can be a Net, an An unit or a clone of ourselves.
        let an = r.chance(0.35) && matches!((oi, oo), (1, 1) | (2, 2) | (1, 2) | (2, 1) | (0, 1));
        let own = !an && (oi, oo) == (ni, no) && r.chance(0.4);
        let mut other;
        if own {
            let mut m2 = Model::new(self.m.inputs, 0);
            let mut st2 = States::new();
            let mut map = std::collections::HashMap::new();
            for (k, n) in &self.m.nodes {
                let (k2, uid) = (ids.next(), ids.next());
                map.insert(*k, k2);
                st2.insert(uid, self.st[&n.uid].clone());
                let mut n2 = n.clone();
                n2.uid = uid;
                m2.nodes.insert(k2, n2);
            }
            let rn = |s: &Src| s.map(&|x| if let Src::Node(k, p) = x { Some(Src::Node(map[k], *p)) } else { None });
            for n in m2.nodes.values_mut() {
                n.ins = n.ins.iter().map(rn).collect();
            }
            m2.outs = self.m.outs.iter().map(rn).collect();
            other = Sys { net: me.clone(), m: m2, st: st2, opaque: self.opaque, removed: vec![], log: vec!["own clone".into()], rate: self.rate };
        } else if an {
            let seed = r.u64();
            let (k, uid) = (ids.next(), ids.next());
            other = Sys { net: Net::new(0, 0), m: Model::new(oi, oo), st: States::new(), opaque: false, removed: vec![], log: vec!["An".into()], rate: self.rate };
            other.st.insert(uid, DRef::new(seed, oi, oo, false));
            other.m.add(k, uid, seed, oi, oo, false, None);
            other.m.nodes.get_mut(&k).unwrap().ins = (0..oi).map(Src::Global).collect();
            other.m.outs = (0..oo).map(|p| Src::Node(k, p)).collect();
            macro_rules! go {
                ($($i:ty, $o:ty, $a:expr, $b:expr);*) => { match (oi, oo) { $( ($a, $b) => {
                    let x = t::<$i, $o>(seed);
                    match (kind, flip) {
                        (0, _) => me >> x,
                        (1, _) => x >> me,
                        (2, false) => me & x, (2, true) => x & me,
                        (3, false) => me ^ x, (3, true) => x ^ me,
                        (4, false) => me | x, (4, true) => x | me,
                        (_, f) => match (sub, f) {
                            (0, false) => me + x, (0, true) => x + me,
                            (1, false) => me - x, (1, true) => x - me,
                            (_, false) => me * x, (_, true) => x * me,
                        },
                    }
                } )* _ => unreachable!() } };
            }
            self.net = go!(U1, U1, 1, 1; U2, U2, 2, 2; U1, U2, 1, 2; U2, U1, 2, 1; U0, U1, 0, 1);
            return self.finish_op(kind, flip, sub, other, r);
        } else {
            other = Sys::new(r, ids, oi, oo);
            for _ in 0..r.below(8) {
                other.edit(r, ids, depth - 1)?;
                if other.m.inputs != oi || other.m.outs.len() != oo {
                    // An operator changed the arity: start over.
                    other = Sys::new(r, ids, oi, oo);
                }
            }
        }
        // Validity predicates.
        let x = std::mem::replace(&mut other.net, Net::new(0, 0));
        let (ai, ao, bi, bo) = (me.inputs(), me.outputs(), x.inputs(), x.outputs());
        if Net::can_pipe(&me, &x) != (ao == bi)
            || Net::can_bus(&me, &x) != (ai == bi && ao == bo)
            || Net::can_branch(&me, &x) != (ai == bi)
            || Net::can_sum(&me, &x) != (ao == bo)
            || Net::can_product(&me, &x) != (ao == bo)
            || !Net::can_stack(&me, &x)
        {
            return Err("can_* predicate disagrees with arities".to_string());
        }
        let f = r.chance(0.3);
        self.net = match (kind, flip) {
            (0, _) => if f { Net::pipe(me, x) } else { me >> x },
            (1, _) => if f { Net::pipe(x, me) } else { x >> me },
            (2, false) => if f { Net::bus(me, x) } else { me & x },
            (2, true) => x & me,
            (3, false) => if f { Net::branch(me, x) } else { me ^ x },
            (3, true) => x ^ me,
            (4, false) => if f { Net::stack(me, x) } else { me | x },
            (4, true) => x | me,
            (_, false) => match sub { 0 => if f { Net::sum(me, x) } else { me + x }, 1 => me - x, _ => if f { Net::product(me, x) } else { me * x } },
            (_, true) => match sub { 0 => x + me, 1 => x - me, _ => x * me },
        };
        self.finish_op(kind, flip, sub, other, r)
    }

    fn finish_op(&mut self, kind: usize, flip: bool, sub: usize, mut other: Sys, r: &mut Rng) -> Result<(), String> {
        self.log.push(format!("operator {} flip {} sub {} with [{}]", kind, flip, sub, other.log.join("; ")));
        self.st.extend(other.st.drain());
        let (mut a, b) = if flip {
            (other.m, std::mem::take(&mut self.m))
        } else {
            (std::mem::take(&mut self.m), other.m)
        };
        self.removed.append(&mut other.removed);
        self.opaque |= other.opaque;
        let aouts = a.outs.clone();
        match kind {
            0 | 1 => {
                a.outs = a.combine(b, false, true);
            }
            2 | 3 => {
                let bouts = a.combine(b, false, false);
                if kind == 2 {
                    a.outs = aouts.into_iter().zip(bouts).map(|(x, y)| Src::Expr(Op::Add, Box::new(x), Box::new(y))).collect();
                    self.opaque = true;
                } else {
                    a.outs = aouts.into_iter().chain(bouts).collect();
                }
            }
            4 => {
                let bouts = a.combine(b, true, false);
                a.outs = aouts.into_iter().chain(bouts).collect();
            }
            _ => {
                let bouts = a.combine(b, true, false);
                let op = [Op::Add, Op::Sub, Op::Mul][sub];
                a.outs = aouts.into_iter().zip(bouts).map(|(x, y)| Src::Expr(op, Box::new(x), Box::new(y))).collect();
                self.opaque = true;
            }
        }
        self.m = a;
        // The combination has one rate: make it a known one.
        let sr = match r.below(4) {
            0 => self.rate,
            1 => other.rate,
            2 => DEFAULT_SR,
            _ => vh::rate(r),
        };
        self.set_rate(sr);
        Ok(())
    }

    fn queries(&mut self, rec: &mut Rec) -> Result<(), String> {
        self.net.check();
        if self.net.inputs() != self.m.inputs || self.net.outputs() != self.m.outs.len() {
            return Err(format!("arity {}x{} expected {}x{}", self.net.inputs(), self.net.outputs(), self.m.inputs, self.m.outs.len()));
        }
        for c in 0..self.m.outs.len() {
            let w = self.m.outs[c].clone();
            let got = self.net.output_source(c);
            self.m.match_source(&w, got).map_err(|e| format!("output {}: {}", c, e))?;
        }
        let keys: Vec<u64> = self.m.nodes.keys().copied().collect();
        for k in keys {
            let n = self.m.nodes[&k].clone();
            let Some(id) = n.id else { continue };
            if !self.net.contains(id) {
                return Err(format!("node {} is not contained", k));
            }
            if self.net.inputs_in(id) != n.ni || self.net.outputs_in(id) != n.no {
                return Err(format!("arity of node {} is wrong", k));
            }
            let u = self.net.node(id);
            if u.inputs() != n.ni || u.outputs() != n.no {
                return Err(format!("node() of node {} returns another unit", k));
            }
            for c in 0..n.ni {
                let got = self.net.source(id, c);
                self.m.match_source(&n.ins[c], got).map_err(|e| format!("node {} input {}: {}", k, c, e))?;
            }
        }
        for id in &self.removed {
            if self.net.contains(*id) {
                return Err("removed node is still contained".to_string());
            }
        }
        let all: Vec<NodeId> = self.net.ids().copied().collect();
        let set: HashSet<NodeId> = all.iter().copied().collect();
        if all.len() != set.len() || all.len() != self.net.size() {
            return Err(format!("ids: {} listed, {} distinct, size {}", all.len(), set.len(), self.net.size()));
        }
        if !self.opaque && self.net.size() != self.m.nodes.len() {
            return Err(format!("size {} expected {}", self.net.size(), self.m.nodes.len()));
        }
        if self.net.size() < self.m.nodes.len() {
            return Err(format!("size {} below {}", self.net.size(), self.m.nodes.len()));
        }
        let cyc = self.m.order().is_none();
        let err = self.net.error().clone();
        if (err == Some(NetError::Cycle)) != cyc {
            return Err(format!("cycle {} but error {:?}", cyc, err));
        }
        rec.count("queries", 1);
        if cyc {
            rec.count("cyclic_states", 1);
        }
        Ok(())
    }

    fn play(&mut self, r: &mut Rng, rec: &mut Rec) -> Result<(), String> {
        let Some(order) = self.m.order() else { return Ok(()) };
        let n = r.usize(1, 150);
        let x: Chans = (0..self.m.inputs).map(|_| audio(r, n)).collect();
        let p = partition(r, n);
        let got = render(&mut self.net, &x, &p);
        let mut want: Chans = vec![vec![]; self.m.outs.len()];
        let mut fr = vec![0.0; self.m.inputs];
        for k in 0..n {
            for c in 0..fr.len() {
                fr[c] = x[c][k];
            }
            for (c, y) in self.m.tick(&order, &mut self.st, &fr).into_iter().enumerate() {
                want[c].push(y);
            }
        }
        rec.count("samples_compared", (n * want.len()) as u64);
        rec.count("renders", 1);
        if vh::nontrivial(&want) {
            rec.distinct(&format!("{:?}{:?}", self.m.outs, self.m.nodes.values().map(|n| format!("{:?}", n.ins)).collect::<Vec<_>>()));
        }
        compare(&want, &got, 2e-4, 2e-4).map_err(|e| format!("{} (interpreter vs Net)", e))?;
        Ok(())
    }
}

fn unit(seed: u64, i: usize, o: usize, rate: f64) -> (Box<dyn AudioUnit>, DRef) {
    let mut d = DRef::new(seed, i, o, true);
    d.set_rate(rate);
    (DUnit::boxed(seed, i, o), d)
}

/// The unit handed back is the one that was in the network, with its state.
fn same_unit(r: &mut Rng, mut u: Box<dyn AudioUnit>, mut st: DRef, what: &str) -> Result<(), String> {
    if u.inputs() != st.i || u.outputs() != st.o {
        return Err(format!("{} returned a unit of another arity", what));
    }
    let mut y = vec![0.0; st.o];
    for _ in 0..3 {
        let x: Vec<f32> = (0..st.i).map(|_| r.f(-1.0, 1.0)).collect();
        u.tick(&x, &mut y);
        let w = st.tick(&x);
        if w.iter().zip(&y).any(|(a, b)| (a - b).abs() > 1e-4) {
            return Err(format!("{} returned another unit: {:?} vs {:?}", what, w, y));
        }
    }
    Ok(())
}

fn case(rec: &mut Rec) -> Result<(), String> {
    let mut r = rec.rng.clone();
    let mut ids = Ids(0);
    let (i, o) = (r.below(4), r.below(4));
    let mut s = Sys::new(&mut r, &mut ids, i, o);
    let steps = r.usize(3, 40);
    let depth = r.below(3);
    let mut cyclic = 0;
    for _ in 0..steps {
        let res = s.edit(&mut r, &mut ids, depth);
        rec.ctx = s.log.join("; ");
        res?;
        rec.count("edits", 1);
        s.queries(rec)?;
        if s.m.order().is_none() {
            cyclic += 1;
            if cyclic > 4 {
                // Break every cycle.
                let keys = s.m.named();
                for k in keys {
                    if s.m.order().is_some() {
                        break;
                    }
                    for c in 0..s.m.nodes[&k].ni {
                        s.net.disconnect(s.id(k), c);
                        s.m.nodes.get_mut(&k).unwrap().ins[c] = Src::Zero;
                    }
                }
                s.log.push("break cycles".into());
                rec.ctx = s.log.join("; ");
                s.queries(rec)?;
                cyclic = 0;
            }
        } else {
            cyclic = 0;
            if r.chance(0.4) {
                s.log.push("render".into());
                rec.ctx = s.log.join("; ");
                s.play(&mut r, rec)?;
            }
        }
    }
    s.play(&mut r, rec)?;
    rec.sample = Some(rec.ctx.chars().take(300).collect());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P06",
        "random Net edit histories mirrored in a graph interpreter; after every edit all queries and error() are compared, and renders are compared sample by sample; distinct nontrivial = distinct graph structures rendered with nonzero output",
    );
    let n = ctx.scale(90000, 3000000);
    ctx.par("history", n, |_i, rec| case(rec));
    ctx.assumptions.push("networks of up to about 25 named nodes and 6 inputs/outputs".into());
    ctx.finish()
}
