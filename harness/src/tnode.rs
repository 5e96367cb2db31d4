//! Deterministic, stateful, arity-generic test node and its independent reference.
use fundsp::hacker32::*;
use std::marker::PhantomData;

fn h(seed: u64, a: u64, b: u64) -> f32 {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (a + 1).wrapping_mul(0xD1B54A32D192ED03) ^ (b + 7).wrapping_mul(0x94D049BB133111EB);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    ((x & 0xffff) as f32 / 32768.0) - 1.0
}

/// Plain reference of the test node.
#[derive(Clone)]
pub struct TRef {
    seed: u64,
    i: usize,
    state: Vec<f32>,
    n: u64,
}

impl TRef {
    pub fn new(seed: u64, i: usize, o: usize) -> Self {
        TRef { seed, i, state: vec![0.0; o], n: 0 }
    }
    pub fn tick(&mut self, x: &[f32]) -> Vec<f32> {
        assert_eq!(x.len(), self.i);
        let w = if self.i > 0 { 0.8 / self.i as f32 } else { 0.0 };
        for j in 0..self.state.len() {
            let mut s = 0.3 * self.state[j];
            for (k, v) in x.iter().enumerate() {
                s += w * h(self.seed, k as u64, j as u64) * *v;
            }
            let ph = (self.n % 97) as f32 / 97.0 + h(self.seed, 100, j as u64);
            s += 0.2 * (ph - ph.floor()) + 0.1 * h(self.seed, 101, j as u64);
            self.state[j] = s;
        }
        self.n += 1;
        self.state.clone()
    }
    pub fn reset(&mut self) {
        self.n = 0;
        self.state.iter_mut().for_each(|x| *x = 0.0);
    }
}

#[derive(Clone)]
pub struct TNode<I, O> {
    r: TRef,
    _m: PhantomData<(I, O)>,
}

impl<I: Size<f32>, O: Size<f32>> TNode<I, O> {
    pub fn new(seed: u64) -> Self {
        TNode { r: TRef::new(seed, I::USIZE, O::USIZE), _m: PhantomData }
    }
}

impl<I: Size<f32>, O: Size<f32>> AudioNode for TNode<I, O> {
    const ID: u64 = 900002;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) {
        self.r.reset();
    }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        let v = self.r.tick(input.as_slice());
        Frame::generate(|i| v[i])
    }
    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
        Routing::Arbitrary(0.0).route(input, O::USIZE)
    }
}

pub fn t<I: Size<f32>, O: Size<f32>>(seed: u64) -> An<TNode<I, O>> {
    An(TNode::new(seed))
}

pub type Ref = Box<dyn FnMut(&[f32]) -> Vec<f32> + Send>;

pub fn tr(seed: u64, i: usize, o: usize) -> Ref {
    let mut r = TRef::new(seed, i, o);
    Box::new(move |x| r.tick(x))
}

pub fn r_pipe(mut a: Ref, mut b: Ref) -> Ref {
    Box::new(move |x| b(&a(x)))
}
/// `n` = number of inputs of a.
pub fn r_stack(n: usize, mut a: Ref, mut b: Ref) -> Ref {
    Box::new(move |x| {
        let mut o = a(&x[..n]);
        o.extend(b(&x[n..]));
        o
    })
}
pub fn r_branch(mut a: Ref, mut b: Ref) -> Ref {
    Box::new(move |x| {
        let mut o = a(x);
        o.extend(b(x));
        o
    })
}
pub fn r_bus(mut a: Ref, mut b: Ref) -> Ref {
    Box::new(move |x| a(x).iter().zip(b(x)).map(|(p, q)| p + q).collect())
}
pub fn r_bin(n: usize, mut a: Ref, mut b: Ref, f: fn(f32, f32) -> f32) -> Ref {
    Box::new(move |x| a(&x[..n]).iter().zip(b(&x[n..])).map(|(p, q)| f(*p, q)).collect())
}
pub fn r_map(mut a: Ref, f: impl Fn(f32) -> f32 + Send + 'static) -> Ref {
    Box::new(move |x| a(x).iter().map(|p| f(*p)).collect())
}
pub fn r_thru(i: usize, mut a: Ref) -> Ref {
    Box::new(move |x| {
        let mut o = a(x);
        while o.len() < i {
            o.push(x[o.len()]);
        }
        o.truncate(i);
        o
    })
}
pub fn r_fn(f: impl Fn(&[f32]) -> Vec<f32> + Send + 'static) -> Ref {
    Box::new(move |x| f(x))
}
