//! Shims over fundsp::prelude that fix the generic float type, so that the catalog can be
//! instantiated for the generic environment too. Generated once from the signatures of prelude.rs.
pub use fundsp::prelude::*;
use fundsp::prelude as p;

pub fn sine() -> An<Sine<f64>> {
    p::sine()
}
pub fn sine_hz(f: f32) -> An<Pipe<Constant<U1>, Sine<f64>>> {
    p::sine_hz(f)
}
pub fn ramp() -> An<Ramp<f64>> {
    p::ramp()
}
pub fn ramp_hz(f: f32) -> An<Pipe<Constant<U1>, Ramp<f64>>> {
    p::ramp_hz(f)
}
pub fn butterpass() -> An<ButterLowpass<f64, U2>> {
    p::butterpass()
}
pub fn butterpass_hz(f: f32) -> An<ButterLowpass<f64, U1>> {
    p::butterpass_hz(f as f64)
}
pub fn lowpole() -> An<Lowpole<f64, U2>> {
    p::lowpole()
}
pub fn lowpole_hz(cutoff: f32) -> An<Lowpole<f64, U1>> {
    p::lowpole_hz(cutoff as f64)
}
pub fn allpole() -> An<Allpole<f64, U2>> {
    p::allpole()
}
pub fn allpole_delay(delay: f32) -> An<Allpole<f64, U1>> {
    p::allpole_delay(delay as f64)
}
pub fn highpole() -> An<Highpole<f64, U2>> {
    p::highpole()
}
pub fn highpole_hz(cutoff: f32) -> An<Highpole<f64, U1>> {
    p::highpole_hz(cutoff as f64)
}
pub fn resonator() -> An<Resonator<f64, U3>> {
    p::resonator()
}
pub fn resonator_hz(center: f32, q: f32) -> An<Resonator<f64, U1>> {
    p::resonator_hz(center as f64, q as f64)
}
pub fn biquad(a1: f32, a2: f32, b0: f32, b1: f32, b2: f32) -> An<Biquad<f64>> {
    p::biquad(a1 as f64, a2 as f64, b0 as f64, b1 as f64, b2 as f64)
}
pub fn moog() -> An<Moog<f64, U3>> {
    p::moog()
}
pub fn moog_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Moog<f64, U3>>> {
    p::moog_q(q as f64)
}
pub fn moog_hz(frequency: f32, q: f32) -> An<Moog<f64, U1>> {
    p::moog_hz(frequency as f64, q as f64)
}
pub fn dcblock_hz(cutoff: f32) -> An<DCBlock<f64>> {
    p::dcblock_hz(cutoff as f64)
}
pub fn dcblock() -> An<DCBlock<f64>> {
    p::dcblock()
}
pub fn declick() -> An<Declick<f64>> {
    p::declick()
}
pub fn declick_s(t: f32) -> An<Declick<f64>> {
    p::declick_s(t as f64)
}
pub fn follow(response_time: f32) -> An<Follow<f64>> {
    p::follow(response_time as f64)
}
pub fn afollow(attack_time: f32, release_time: f32) -> An<AFollow<f64>> {
    p::afollow(attack_time as f64, release_time as f64)
}
pub fn pinkpass() -> An<Pinkpass<f64>> {
    p::pinkpass()
}
pub fn pink() -> An<Pipe<Noise, Pinkpass<f64>>> {
    p::pink()
}
pub fn brown() -> An<Pipe<Noise, Binop<FrameMul<U1>, Lowpole<f64, U1>, Constant<U1>>>> {
    p::brown()
}
pub fn lowpass() -> An<Svf<f64, LowpassMode<f64>>> {
    p::lowpass()
}
pub fn lowpass_hz(f: f32, q: f32) -> An<FixedSvf<f64, LowpassMode<f64>>> {
    p::lowpass_hz(f as f64, q as f64)
}
pub fn lowpass_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, LowpassMode<f64>>>> {
    p::lowpass_q(q as f64)
}
pub fn highpass() -> An<Svf<f64, HighpassMode<f64>>> {
    p::highpass()
}
pub fn highpass_hz(f: f32, q: f32) -> An<FixedSvf<f64, HighpassMode<f64>>> {
    p::highpass_hz(f as f64, q as f64)
}
pub fn highpass_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, HighpassMode<f64>>>> {
    p::highpass_q(q as f64)
}
pub fn bandpass() -> An<Svf<f64, BandpassMode<f64>>> {
    p::bandpass()
}
pub fn bandpass_hz(f: f32, q: f32) -> An<FixedSvf<f64, BandpassMode<f64>>> {
    p::bandpass_hz(f as f64, q as f64)
}
pub fn bandpass_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, BandpassMode<f64>>>> {
    p::bandpass_q(q as f64)
}
pub fn notch() -> An<Svf<f64, NotchMode<f64>>> {
    p::notch()
}
pub fn notch_hz(f: f32, q: f32) -> An<FixedSvf<f64, NotchMode<f64>>> {
    p::notch_hz(f as f64, q as f64)
}
pub fn notch_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, NotchMode<f64>>>> {
    p::notch_q(q as f64)
}
pub fn peak() -> An<Svf<f64, PeakMode<f64>>> {
    p::peak()
}
pub fn peak_hz(f: f32, q: f32) -> An<FixedSvf<f64, PeakMode<f64>>> {
    p::peak_hz(f as f64, q as f64)
}
pub fn peak_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, PeakMode<f64>>>> {
    p::peak_q(q as f64)
}
pub fn allpass() -> An<Svf<f64, AllpassMode<f64>>> {
    p::allpass()
}
pub fn allpass_hz(f: f32, q: f32) -> An<FixedSvf<f64, AllpassMode<f64>>> {
    p::allpass_hz(f as f64, q as f64)
}
pub fn allpass_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<f64, AllpassMode<f64>>>> {
    p::allpass_q(q as f64)
}
pub fn bell() -> An<Svf<f64, BellMode<f64>>> {
    p::bell()
}
pub fn bell_hz(f: f32, q: f32, gain: f32) -> An<FixedSvf<f64, BellMode<f64>>> {
    p::bell_hz(f as f64, q as f64, gain as f64)
}
pub fn bell_q(q: f32, gain: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<f64, BellMode<f64>>>> {
    p::bell_q(q as f64, gain as f64)
}
pub fn lowshelf() -> An<Svf<f64, LowshelfMode<f64>>> {
    p::lowshelf()
}
pub fn lowshelf_hz(f: f32, q: f32, gain: f32) -> An<FixedSvf<f64, LowshelfMode<f64>>> {
    p::lowshelf_hz(f as f64, q as f64, gain as f64)
}
pub fn lowshelf_q(q: f32, gain: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<f64, LowshelfMode<f64>>>> {
    p::lowshelf_q(q as f64, gain as f64)
}
pub fn highshelf() -> An<Svf<f64, HighshelfMode<f64>>> {
    p::highshelf()
}
pub fn highshelf_hz(f: f32, q: f32, gain: f32) -> An<FixedSvf<f64, HighshelfMode<f64>>> {
    p::highshelf_hz(f as f64, q as f64, gain as f64)
}
pub fn highshelf_q(q: f32, gain: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<f64, HighshelfMode<f64>>>> {
    p::highshelf_q(q as f64, gain as f64)
}
pub fn lowrez() -> An<Rez<f64, U3>> {
    p::lowrez()
}
pub fn lowrez_hz(cutoff: f32, q: f32) -> An<Rez<f64, U1>> {
    p::lowrez_hz(cutoff as f64, q as f64)
}
pub fn lowrez_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Rez<f64, U3>>> {
    p::lowrez_q(q as f64)
}
pub fn bandrez() -> An<Rez<f64, U3>> {
    p::bandrez()
}
pub fn bandrez_hz(center: f32, q: f32) -> An<Rez<f64, U1>> {
    p::bandrez_hz(center as f64, q as f64)
}
pub fn bandrez_q(q: f32) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Rez<f64, U3>>> {
    p::bandrez_q(q as f64)
}
pub fn morph() -> An<Morph<f64>> {
    p::morph()
}
pub fn morph_hz(f: f32, q: f32, morph: f32) -> An<Pipe<Stack<Pass, Constant<U3>>, Morph<f64>>> {
    p::morph_hz(f as f64, q as f64, morph as f64)
}
pub fn dbell<S: Shape>(shape: S) -> An<DirtyBiquad<f64, BellBiquad<f64>, S>> {
    p::dbell(shape)
}
pub fn dbell_hz<S: Shape>(shape: S, center: f32, q: f32, gain: f32) -> An<FixedDirtyBiquad<f64, BellBiquad<f64>, S>> {
    p::dbell_hz(shape, center as f64, q as f64, gain as f64)
}
pub fn fbell<S: Shape>(shape: S) -> An<FbBiquad<f64, BellBiquad<f64>, S>> {
    p::fbell(shape)
}
pub fn fbell_hz<S: Shape>(shape: S, center: f32, q: f32, gain: f32) -> An<FixedFbBiquad<f64, BellBiquad<f64>, S>> {
    p::fbell_hz(shape, center as f64, q as f64, gain as f64)
}
pub fn dhighpass<S: Shape>(shape: S) -> An<DirtyBiquad<f64, HighpassBiquad<f64>, S>> {
    p::dhighpass(shape)
}
pub fn dhighpass_hz<S: Shape>(shape: S, cutoff: f32, q: f32) -> An<FixedDirtyBiquad<f64, HighpassBiquad<f64>, S>> {
    p::dhighpass_hz(shape, cutoff as f64, q as f64)
}
pub fn fhighpass<S: Shape>(shape: S) -> An<FbBiquad<f64, HighpassBiquad<f64>, S>> {
    p::fhighpass(shape)
}
pub fn fhighpass_hz<S: Shape>(shape: S, cutoff: f32, q: f32) -> An<FixedFbBiquad<f64, HighpassBiquad<f64>, S>> {
    p::fhighpass_hz(shape, cutoff as f64, q as f64)
}
pub fn dlowpass<S: Shape>(shape: S) -> An<DirtyBiquad<f64, LowpassBiquad<f64>, S>> {
    p::dlowpass(shape)
}
pub fn dlowpass_hz<S: Shape>(shape: S, cutoff: f32, q: f32) -> An<FixedDirtyBiquad<f64, LowpassBiquad<f64>, S>> {
    p::dlowpass_hz(shape, cutoff as f64, q as f64)
}
pub fn flowpass<S: Shape>(shape: S) -> An<FbBiquad<f64, LowpassBiquad<f64>, S>> {
    p::flowpass(shape)
}
pub fn flowpass_hz<S: Shape>(shape: S, cutoff: f32, q: f32) -> An<FixedFbBiquad<f64, LowpassBiquad<f64>, S>> {
    p::flowpass_hz(shape, cutoff as f64, q as f64)
}
pub fn dresonator<S: Shape>(shape: S) -> An<DirtyBiquad<f64, ResonatorBiquad<f64>, S>> {
    p::dresonator(shape)
}
pub fn dresonator_hz<S: Shape>(shape: S, center: f32, q: f32) -> An<FixedDirtyBiquad<f64, ResonatorBiquad<f64>, S>> {
    p::dresonator_hz(shape, center as f64, q as f64)
}
pub fn fresonator<S: Shape>(shape: S) -> An<FbBiquad<f64, ResonatorBiquad<f64>, S>> {
    p::fresonator(shape)
}
pub fn fresonator_hz<S: Shape>(shape: S, center: f32, q: f32) -> An<FixedFbBiquad<f64, ResonatorBiquad<f64>, S>> {
    p::fresonator_hz(shape, center as f64, q as f64)
}
pub fn poly_saw() -> An<PolySaw<f64>> {
    p::poly_saw()
}
pub fn poly_saw_hz(f: f32) -> An<Pipe<Constant<U1>, PolySaw<f64>>> {
    p::poly_saw_hz(f)
}
pub fn poly_square() -> An<PolySquare<f64>> {
    p::poly_square()
}
pub fn poly_square_hz(f: f32) -> An<Pipe<Constant<U1>, PolySquare<f64>>> {
    p::poly_square_hz(f)
}
pub fn poly_pulse() -> An<PolyPulse<f64>> {
    p::poly_pulse()
}
pub fn poly_pulse_hz(f: f32, width: f32) -> An<Pipe<Constant<U2>, PolyPulse<f64>>> {
    p::poly_pulse_hz(f, width)
}
pub use fundsp::hacker::{branchf, busf, pipef, stackf, sumf};
pub fn delay(t: f32) -> An<Delay> {
    p::delay(t as f64)
}
pub fn reverb_stereo(a: f32, b: f32, c: f32) -> An<impl AudioNode<Inputs = U2, Outputs = U2>> {
    p::reverb_stereo(a as f64, b as f64, c as f64)
}
pub fn reverb2_stereo(a: f32, b: f32, c: f32, d: f32, f: An<impl AudioNode<Inputs = U1, Outputs = U1>>) -> An<impl AudioNode<Inputs = U2, Outputs = U2>> {
    p::reverb2_stereo(a as f64, b as f64, c as f64, d as f64, f)
}
pub fn reverb3_stereo(a: f32, b: f32, f: An<impl AudioNode<Inputs = U1, Outputs = U1>>) -> An<impl AudioNode<Inputs = U2, Outputs = U2>> {
    p::reverb3_stereo(a as f64, b as f64, f)
}
pub fn reverb4_stereo(a: f32, b: f32) -> An<impl AudioNode<Inputs = U2, Outputs = U2>> {
    p::reverb4_stereo(a as f64, b as f64)
}
