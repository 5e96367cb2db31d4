//! Reference interpreter of the graph a Net edit history describes.
use crate::core::Rng;
use crate::dunit::*;
use fundsp::net::{NodeId, Source};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Zero,
    Global(usize),
    /// Model node key and port.
    Node(u64, usize),
    /// Output of an operator: an unnamed unit of the network.
    Expr(Op, Box<Src>, Box<Src>),
    Const(f32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
}

impl Src {
    /// Replace references.
    pub fn map(&self, f: &dyn Fn(&Src) -> Option<Src>) -> Src {
        if let Some(s) = f(self) {
            return s;
        }
        match self {
            Src::Expr(o, a, b) => Src::Expr(*o, Box::new(a.map(f)), Box::new(b.map(f))),
            s => s.clone(),
        }
    }
    pub fn nodes(&self, out: &mut Vec<u64>) {
        match self {
            Src::Node(k, _) => out.push(*k),
            Src::Expr(_, a, b) => {
                a.nodes(out);
                b.nodes(out);
            }
            _ => (),
        }
    }
}

#[derive(Clone, Debug)]
pub struct MNode {
    /// Unit instance.
    pub uid: u64,
    pub ni: usize,
    pub no: usize,
    pub ins: Vec<Src>,
    pub id: Option<NodeId>,
    /// TNode in the An operators.
    pub seed: u64,
    pub rich: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub inputs: usize,
    pub outs: Vec<Src>,
    pub nodes: BTreeMap<u64, MNode>,
}

pub type States = HashMap<u64, DRef>;

impl Model {
    pub fn new(inputs: usize, outputs: usize) -> Self {
        Model { inputs, outs: vec![Src::Zero; outputs], nodes: BTreeMap::new() }
    }
    pub fn add(&mut self, key: u64, uid: u64, seed: u64, ni: usize, no: usize, rich: bool, id: Option<NodeId>) {
        self.nodes.insert(key, MNode { uid, ni, no, ins: vec![Src::Zero; ni], id, seed, rich });
    }
    pub fn key_of(&self, id: NodeId) -> Option<u64> {
        self.nodes.iter().find(|(_, n)| n.id == Some(id)).map(|(k, _)| *k)
    }
    /// Keys that the user can name.
    pub fn named(&self) -> Vec<u64> {
        self.nodes.iter().filter(|(_, n)| n.id.is_some()).map(|(k, _)| *k).collect()
    }
    fn each_src(&mut self, f: &dyn Fn(Option<u64>, &Src) -> Option<Src>) {
        for s in self.outs.iter_mut() {
            *s = s.map(&|x| f(None, x));
        }
        for (k, n) in self.nodes.iter_mut() {
            for s in n.ins.iter_mut() {
                // Inside an operator the holder is the unnamed unit of the operator.
                *s = if matches!(s, Src::Expr(..)) { s.map(&|x| f(None, x)) } else { s.map(&|x| f(Some(*k), x)) };
            }
        }
    }
    pub fn remove(&mut self, key: u64, link: bool) {
        let node = self.nodes[&key].clone();
        self.each_src(&|holder, s| match s {
            Src::Node(k, p) if *k == key => Some(if link {
                match &node.ins[*p] {
                    // Self connections are prohibited.
                    Src::Node(j, _) if Some(*j) == holder => Src::Zero,
                    x => x.clone(),
                }
            } else {
                Src::Zero
            }),
            _ => None,
        });
        self.nodes.remove(&key);
    }
    /// Order of evaluation, or None if there is a cycle.
    pub fn order(&self) -> Option<Vec<u64>> {
        let mut deps: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        for (k, n) in &self.nodes {
            let mut d = vec![];
            n.ins.iter().for_each(|s| s.nodes(&mut d));
            d.sort();
            d.dedup();
            deps.insert(*k, d);
        }
        let mut order = vec![];
        let mut done = std::collections::HashSet::new();
        loop {
            let mut progress = false;
            for (k, d) in &deps {
                if !done.contains(k) && d.iter().all(|x| done.contains(x)) {
                    done.insert(*k);
                    order.push(*k);
                    progress = true;
                }
            }
            if done.len() == deps.len() {
                return Some(order);
            }
            if !progress {
                return None;
            }
        }
    }
    pub fn eval(s: &Src, input: &[f32], v: &HashMap<u64, Vec<f32>>) -> f32 {
        match s {
            Src::Zero => 0.0,
            Src::Global(i) => input[*i],
            Src::Node(k, p) => v[k][*p],
            Src::Const(c) => *c,
            Src::Expr(o, a, b) => {
                let (a, b) = (Model::eval(a, input, v), Model::eval(b, input, v));
                match o {
                    Op::Add => a + b,
                    Op::Sub => a - b,
                    Op::Mul => a * b,
                }
            }
        }
    }
    /// One sample. `order` from `order()`.
    pub fn tick(&self, order: &[u64], st: &mut States, input: &[f32]) -> Vec<f32> {
        let mut v: HashMap<u64, Vec<f32>> = HashMap::new();
        for k in order {
            let n = &self.nodes[k];
            let x: Vec<f32> = n.ins.iter().map(|s| Model::eval(s, input, &v)).collect();
            let y = st.get_mut(&n.uid).unwrap().tick(&x);
            v.insert(*k, y);
        }
        self.outs.iter().map(|s| Model::eval(s, input, &v)).collect()
    }
    /// Compare a source reported by the Net with the model. Binds unnamed nodes.
    pub fn match_source(&mut self, want: &Src, got: Source) -> Result<(), String> {
        match (want, got) {
            (Src::Zero, Source::Zero) => Ok(()),
            (Src::Global(i), Source::Global(j)) if *i == j => Ok(()),
            (Src::Node(k, p), Source::Local(id, q)) if *p == q => {
                let owner = self.key_of(id);
                match (self.nodes[k].id, owner) {
                    (Some(x), _) if x == id => Ok(()),
                    (None, None) => {
                        self.nodes.get_mut(k).unwrap().id = Some(id);
                        Ok(())
                    }
                    _ => Err(format!("source is another node: {:?} vs {:?}", want, got)),
                }
            }
            (Src::Expr(..), Source::Local(id, _)) | (Src::Const(_), Source::Local(id, _)) if self.key_of(id).is_none() => Ok(()),
            _ => Err(format!("source {:?} expected, {:?} reported", want, got)),
        }
    }
    pub fn combine(&mut self, other: Model, shift_inputs: bool, pipe: bool) -> Vec<Src> {
        // Nodes of other are added; its global sources are redirected. Returns redirected outputs of other.
        let ni = self.inputs;
        let outs = self.outs.clone();
        let redirect = |s: &Src| -> Src {
            s.map(&|x| match x {
                Src::Global(i) => Some(if pipe {
                    outs[*i].clone()
                } else if shift_inputs {
                    Src::Global(*i + ni)
                } else {
                    Src::Global(*i)
                }),
                _ => None,
            })
        };
        let mut o = other;
        for (k, mut n) in std::mem::take(&mut o.nodes) {
            n.ins = n.ins.iter().map(|s| redirect(s)).collect();
            // Conflicting IDs are renewed.
            if let Some(id) = n.id {
                if self.key_of(id).is_some() {
                    n.id = None;
                }
            }
            self.nodes.insert(k, n);
        }
        let res = o.outs.iter().map(|s| redirect(s)).collect();
        if shift_inputs {
            self.inputs += o.inputs;
        }
        res
    }
}

pub fn arity(r: &mut Rng) -> (usize, usize) {
    if r.chance(0.04) {
        return *r.pick(&[(9, 1), (13, 2), (1, 10), (2, 12)]);
    }
    *r.pick(&[(0, 1), (1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 1), (1, 3), (0, 2), (1, 0), (3, 3), (4, 2)])
}
