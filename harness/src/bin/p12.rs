//! P12 workload for AddressSanitizer and MemorySanitizer: every opcode and random graphs, rendered
//! with hostile buffers. Under MemorySanitizer (--cfg vmsan) unused input lanes and all of the output
//! are poisoned, and every requested output sample has to be initialised by the rendering.
use fundsp::hacker32::*;
use vh::catalog::*;
use vh::gen::Gen;
use vh::{partition, rate, stimuli, Chans, Ctx, Kind, Rec, Rng, TICK};

#[cfg(vmsan)]
mod ms {
    extern "C" {
        fn __msan_allocated_memory(p: *const u8, n: usize);
        fn __msan_test_shadow(p: *const u8, n: usize) -> isize;
    }
    /// Mark memory as uninitialised.
    pub fn poison(x: &mut [f32]) {
        unsafe { __msan_allocated_memory(x.as_ptr() as *const u8, x.len() * 4) }
    }
    /// Index of the first uninitialised sample.
    pub fn test(x: &[f32]) -> Option<usize> {
        let k = unsafe { __msan_test_shadow(x.as_ptr() as *const u8, x.len() * 4) };
        if k < 0 {
            None
        } else {
            Some(k as usize / 4)
        }
    }
}

#[cfg(not(vmsan))]
mod ms {
    pub fn poison(x: &mut [f32]) {
        x.fill(f32::from_bits(0x7fc0_1234));
    }
    pub fn test(_x: &[f32]) -> Option<usize> {
        None
    }
}

/// Render and check the shadow of every output sample.
fn drive(r: &mut Rng, unit: &mut dyn AudioUnit, input: &Chans, steps: &[usize]) -> Result<Chans, String> {
    // Exactly sized heap buffers, so that any access outside is seen.
    let (ni, no) = (unit.inputs(), unit.outputs());
    let mut ib = BufferVec::new(ni);
    let mut ob = BufferVec::new(no);
    let mut out: Chans = vec![vec![]; no];
    let mut pos = 0;
    for &s in steps {
        if s == TICK {
            let fi: Vec<f32> = input.iter().map(|c| c[pos]).collect();
            let mut fo = vec![0.0f32; no];
            ms::poison(&mut fo);
            unit.tick(&fi, &mut fo);
            if let Some(k) = ms::test(&fo) {
                return Err(format!("tick leaves output {} uninitialised at sample {}", k, pos));
            }
            for c in 0..no {
                out[c].push(fo[c]);
            }
            pos += 1;
        } else {
            for c in 0..ni {
                let b = ib.channel_f32_mut(c);
                b[..s].copy_from_slice(&input[c][pos..pos + s]);
                // Lanes that share a SIMD item with requested samples hold leftovers of earlier blocks
                // in real use; lanes beyond are never touched by the caller.
                let e = (s + 7) / 8 * 8;
                b[s..e].fill(if r.chance(0.5) { 0.0 } else { 0.5 });
                ms::poison(&mut b[e..]);
            }
            for c in 0..no {
                ms::poison(ob.channel_f32_mut(c));
            }
            unit.process(s, &ib.buffer_ref(), &mut ob.buffer_mut());
            for c in 0..no {
                let y = &ob.channel_f32(c)[..s];
                if let Some(k) = ms::test(y) {
                    return Err(format!("process({}) leaves output {} uninitialised at index {} (sample {})", s, c, k, pos));
                }
                out[c].extend_from_slice(y);
            }
            pos += s;
        }
    }
    Ok(out)
}

fn account(rec: &mut Rec, name: &str, out: &Chans, steps: usize) {
    rec.count("samples observed", out.iter().map(|c| c.len() as u64).sum());
    rec.count("calls", steps as u64);
    if vh::nontrivial(out) {
        rec.distinct(&format!("{} {}", name, steps));
    }
}

/// A unit that forgets its last sample.
#[derive(Clone)]
struct Lazy;
impl AudioNode for Lazy {
    const ID: u64 = 999_001;
    type Inputs = U1;
    type Outputs = U1;
    fn tick(&mut self, input: &Frame<f32, U1>) -> Frame<f32, U1> {
        *input
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        for i in 0..size - 1 {
            output.set_f32(0, i, input.at_f32(0, i));
        }
    }
}

/// The sanitizer has to see a planted defect, or its silence means nothing.
fn selftest() -> bool {
    let mut u: Box<dyn AudioUnit> = Box::new(An(Lazy) >> mul(2.0));
    let x = vec![vec![1.0; 64]];
    let a = drive(&mut Rng::new(1), &mut *u, &x, &[64]).is_err();
    let mut u: Box<dyn AudioUnit> = Box::new(mul(2.0) >> pass());
    let b = drive(&mut Rng::new(1), &mut *u, &x, &[64]).is_ok();
    a && b
}

fn main() {
    if cfg!(vmsan) && !selftest() {
        println!("INCONCLUSIVE property=P12: the sanitizer misses a planted defect");
        std::process::exit(3);
    }
    let mut ctx = Ctx::new("P12", "distinct (unit or graph, partition length) renderings with nonzero output under the sanitizer");
    let entries: Vec<Entry> = all();
    let es = &entries;
    let reps = ctx.scale(60, 1500);
    ctx.par("opcode", es.len() * reps, |i, rec| {
        let e = &es[i % es.len()];
        let mut r = rec.rng.fork();
        let sr = rate(&mut r);
        let len = r.usize(65, 500);
        let input = e.stim(&mut r, len, sr);
        let mut a = e.build(&mut r.fork(), sr);
        if r.chance(0.5) {
            a.allocate();
        }
        let p = partition(&mut r, len);
        rec.ctx = format!("{} sr {} partition {:?}", e.label(), sr, &p[..Ord::min(p.len(), 20)]);
        let o = drive(&mut r, a.as_mut(), &input, &p)?;
        let mut b = a.clone();
        a.reset();
        a.set_sample_rate(sr * 0.5);
        drive(&mut r, a.as_mut(), &input, &p)?;
        drop(a);
        drive(&mut r, b.as_mut(), &input, &p)?;
        account(rec, &e.label(), &o, p.len());
        Ok(())
    });
    let gen = Gen::new(SHARED);
    let n = ctx.scale(20000, 500000);
    ctx.par("graph", n, |_i, rec| {
        let mut r = rec.rng.fork();
        let sr = rate(&mut r);
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 3);
        let mut g = gen.gen(&mut r, d, i, o, sr);
        g.unit.set_sample_rate(sr);
        let len = r.usize(65, 400);
        let input = stimuli(&mut r, &vec![Kind::A; i], len);
        let p = partition(&mut r, len);
        rec.ctx = format!("{} sr {} partition {:?}", g.desc, sr, &p[..Ord::min(p.len(), 20)]);
        let o = drive(&mut r, g.unit.as_mut(), &input, &p)?;
        account(rec, &g.desc, &o, p.len());
        rec.sample = Some(rec.ctx.clone());
        Ok(())
    });
    ctx.finish()
}
