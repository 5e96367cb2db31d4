//! Dynamic-arity stateful test unit (rate sensitive, settable) and its independent reference.
use crate::tnode::TRef;
use fundsp::hacker32::*;
use fundsp::setting::Parameter;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct DRef {
    pub seed: u64,
    pub i: usize,
    pub o: usize,
    t: TRef,
    pub rate: f64,
    pub bias: f32,
    /// Whether output depends on sample rate and bias (false mimics TNode).
    pub rich: bool,
    pub ticks: u64,
    pub muted: bool,
}

impl DRef {
    pub fn new(seed: u64, i: usize, o: usize, rich: bool) -> Self {
        DRef { seed, i, o, t: TRef::new(seed, i, o), rate: DEFAULT_SR, bias: 0.0, rich, ticks: 0, muted: false }
    }
    /// Always silent.
    pub fn mute(i: usize, o: usize) -> Self {
        let mut d = DRef::new(0, i, o, false);
        d.muted = true;
        d
    }
    pub fn tick(&mut self, x: &[f32]) -> Vec<f32> {
        self.ticks += 1;
        if self.muted {
            return vec![0.0; self.o];
        }
        let mut v = self.t.tick(x);
        if self.rich {
            let k = (self.rate / 44100.0).ln() as f32 * 0.05 + self.bias;
            v.iter_mut().for_each(|y| *y += k);
        }
        v
    }
    pub fn reset(&mut self) {
        self.ticks = 0;
        self.t.reset();
    }
    pub fn set_rate(&mut self, r: f64) {
        self.rate = r as f32 as f64;
    }
}

/// Count of live DUnit instances that were built with `counted`.
pub static DROPS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct DUnit(pub DRef);

impl DUnit {
    pub fn boxed(seed: u64, i: usize, o: usize) -> Box<dyn AudioUnit> {
        Box::new(DUnit(DRef::new(seed, i, o, true)))
    }
}

impl Drop for DUnit {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Ordering::Relaxed);
    }
}

impl AudioUnit for DUnit {
    fn inputs(&self) -> usize {
        self.0.i
    }
    fn outputs(&self) -> usize {
        self.0.o
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.0.set_rate(sample_rate)
    }
    fn tick(&mut self, input: &[f32], output: &mut [f32]) {
        let v = self.0.tick(input);
        output.copy_from_slice(&v);
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        let mut x = vec![0.0; self.0.i];
        for k in 0..size {
            for c in 0..x.len() {
                x[c] = input.channel_f32(c)[k];
            }
            let v = self.0.tick(&x);
            for c in 0..v.len() {
                output.channel_f32_mut(c)[k] = v[c];
            }
        }
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.0.bias += *v;
        }
    }
    fn get_id(&self) -> u64 {
        900005
    }
    fn ping(&mut self, _probe: bool, hash: fundsp::math::AttoHash) -> fundsp::math::AttoHash {
        hash.hash(900005)
    }
    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
        Routing::Arbitrary(0.0).route(input, self.0.o)
    }
    fn footprint(&self) -> usize {
        std::mem::size_of::<Self>()
    }
    fn allocate(&mut self) {}
}

/// A statically typed node whose queries and convenience calls go through the `AudioNode` trait.
#[derive(Clone)]
pub struct Typed<X: AudioNode>(pub An<X>);

impl<X: AudioNode + 'static> AudioUnit for Typed<X> {
    fn reset(&mut self) {
        AudioNode::reset(&mut self.0 .0)
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        AudioNode::set_sample_rate(&mut self.0 .0, sample_rate)
    }
    fn tick(&mut self, input: &[f32], output: &mut [f32]) {
        let y = AudioNode::tick(&mut self.0 .0, &Frame::generate(|i| input[i]));
        output.copy_from_slice(&y)
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        AudioNode::process(&mut self.0 .0, size, input, output)
    }
    fn set(&mut self, setting: fundsp::setting::Setting) {
        AudioNode::set(&mut self.0 .0, setting)
    }
    fn inputs(&self) -> usize {
        AudioNode::inputs(&self.0 .0)
    }
    fn outputs(&self) -> usize {
        AudioNode::outputs(&self.0 .0)
    }
    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
        AudioNode::route(&mut self.0 .0, input, frequency)
    }
    fn get_id(&self) -> u64 {
        X::ID
    }
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
        AudioNode::ping(&mut self.0 .0, probe, hash)
    }
    fn footprint(&self) -> usize {
        std::mem::size_of::<X>()
    }
    fn allocate(&mut self) {
        AudioNode::allocate(&mut self.0 .0)
    }
    fn get_mono(&mut self) -> f32 {
        AudioNode::get_mono(&mut self.0 .0)
    }
    fn get_stereo(&mut self) -> (f32, f32) {
        AudioNode::get_stereo(&mut self.0 .0)
    }
    fn filter_mono(&mut self, x: f32) -> f32 {
        AudioNode::filter_mono(&mut self.0 .0, x)
    }
    fn filter_stereo(&mut self, x: f32, y: f32) -> (f32, f32) {
        AudioNode::filter_stereo(&mut self.0 .0, x, y)
    }
    fn response(&mut self, output: usize, frequency: f64) -> Option<num_complex::Complex64> {
        AudioNode::response(&mut self.0 .0, output, frequency)
    }
    fn response_db(&mut self, output: usize, frequency: f64) -> Option<f64> {
        AudioNode::response_db(&mut self.0 .0, output, frequency)
    }
    fn latency(&mut self) -> Option<f64> {
        AudioNode::latency(&mut self.0 .0)
    }
}
