//! Interpreted by Miri when it compiles: two live mutable views of one channel from safe code, and a
//! view that outlives later writes. A borrow checker that rejects this is the guarantee we want.
use fundsp::hacker32::*;

#[inline(never)]
fn both(a: &mut [f32], b: &mut [f32]) -> f32 {
    a[0] = 1.0;
    b[0] = 2.0;
    a[0]
}

fn main() {
    let mut v = BufferVec::new(1);
    let mut m = v.buffer_mut();
    let a = m.channel_f32_mut(0);
    let b = m.channel_f32_mut(0);
    println!("{}", both(a, b));
}
