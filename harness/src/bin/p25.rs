//! P25: audio buffers address every sample consistently.
use fundsp::hacker32::*;
use fundsp::wide::f32x8;
use vh::{Ctx, Rec, Rng};

type Model = Vec<[f32; 64]>;

fn val(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::MAX,
        3 => f32::MIN_POSITIVE / 4.0,
        4 => f32::from_bits(0x7fc0_0000),
        _ => r.f(-1000.0, 1000.0),
    }
}

fn vals(r: &mut Rng) -> [f32; 8] {
    core::array::from_fn(|_| val(r))
}

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Owned buffers.
trait Owned {
    fn chans(&self) -> usize;
    fn lens(&self) -> (usize, usize);
    fn s(&mut self, c: usize, i: usize, v: f32x8);
    fn sf(&mut self, c: usize, i: usize, v: f32);
    fn a(&self, c: usize, i: usize) -> f32x8;
    fn af(&self, c: usize, i: usize) -> f32;
    fn ch(&self, c: usize) -> &[f32x8];
    fn chm(&mut self, c: usize) -> &mut [f32x8];
    fn chf(&mut self, c: usize) -> &[f32];
    fn chfm(&mut self, c: usize) -> &mut [f32];
    fn clr(&mut self);
    fn bref(&self) -> BufferRef;
    fn bmut(&mut self) -> BufferMut;
    fn dup(&self) -> Box<dyn Owned>;
    fn size(&mut self, _c: usize) -> bool {
        false
    }
}

macro_rules! common {
    () => {
        fn chans(&self) -> usize {
            self.channels()
        }
        fn lens(&self) -> (usize, usize) {
            (self.length(), self.len())
        }
        fn s(&mut self, c: usize, i: usize, v: f32x8) {
            self.set(c, i, v)
        }
        fn sf(&mut self, c: usize, i: usize, v: f32) {
            self.set_f32(c, i, v)
        }
        fn a(&self, c: usize, i: usize) -> f32x8 {
            self.at(c, i)
        }
        fn af(&self, c: usize, i: usize) -> f32 {
            self.at_f32(c, i)
        }
        fn ch(&self, c: usize) -> &[f32x8] {
            self.channel(c)
        }
        fn chm(&mut self, c: usize) -> &mut [f32x8] {
            self.channel_mut(c)
        }
        fn chf(&mut self, c: usize) -> &[f32] {
            self.channel_f32(c)
        }
        fn chfm(&mut self, c: usize) -> &mut [f32] {
            self.channel_f32_mut(c)
        }
        fn clr(&mut self) {
            self.clear()
        }
        fn bref(&self) -> BufferRef {
            self.buffer_ref()
        }
        fn bmut(&mut self) -> BufferMut {
            self.buffer_mut()
        }
    };
}

impl Owned for BufferVec {
    common!();
    fn dup(&self) -> Box<dyn Owned> {
        Box::new(self.clone())
    }
    fn size(&mut self, c: usize) -> bool {
        self.resize(c);
        true
    }
}

impl<N: Size<f32> + 'static> Owned for BufferArray<N> {
    common!();
    fn dup(&self) -> Box<dyn Owned> {
        Box::new(self.clone())
    }
}

fn write_mut(r: &mut Rng, b: &mut BufferMut, base: usize, model: &mut Model, log: &mut String) -> Result<(), String> {
    let n = b.channels();
    if n == 0 {
        return Ok(());
    }
    if n > 1 && r.chance(0.4) {
        let first = r.below(n);
        let k = r.usize(0, n - first);
        let mut s = b.subset(first, k);
        if s.channels() != k {
            return Err(format!("mutable subset has {} channels instead of {}", s.channels(), k));
        }
        log.push_str(&format!("sub({},{}).", first, k));
        return write_mut(r, &mut s, base + first, model, log);
    }
    let c = r.below(n);
    let i = r.below(8);
    let j = r.below(64);
    let m = &mut model[base + c];
    match r.below(7) {
        0 => {
            let v = vals(r);
            b.set(c, i, f32x8::new(v));
            m[i * 8..i * 8 + 8].copy_from_slice(&v);
            log.push_str("set ");
        }
        1 => {
            let v = val(r);
            b.set_f32(c, j, v);
            m[j] = v;
            log.push_str("set_f32 ");
        }
        2 => {
            let v = vals(r);
            b.channel_mut(c)[i] = f32x8::new(v);
            m[i * 8..i * 8 + 8].copy_from_slice(&v);
            log.push_str("channel_mut ");
        }
        3 => {
            let v = val(r);
            b.channel_f32_mut(c)[j] = v;
            m[j] = v;
            log.push_str("channel_f32_mut ");
        }
        4 => {
            let v = vals(r);
            *b.at_mut(c, i) = f32x8::new(v);
            m[i * 8..i * 8 + 8].copy_from_slice(&v);
            log.push_str("at_mut ");
        }
        5 => {
            let v = vals(r);
            b.add(c, i, f32x8::new(v));
            for k in 0..8 {
                m[i * 8 + k] += v[k];
            }
            log.push_str("add ");
        }
        _ => {
            let v = val(r);
            let s = b.channel_f32_mut(c);
            if s.len() != 64 {
                return Err(format!("scalar slice has {} samples", s.len()));
            }
            s.fill(v);
            m.fill(v);
            log.push_str("fill ");
        }
    }
    Ok(())
}

fn check_ref(r: &mut Rng, b: &BufferRef, base: usize, model: &Model, depth: usize) -> Result<u64, String> {
    let n = b.channels();
    let mut reads = 0;
    for c in 0..n {
        let m = &model[base + c];
        let ch = b.channel(c);
        let cf = b.channel_f32(c);
        if ch.len() != 8 || cf.len() != 64 {
            return Err(format!("slices of {} and {}", ch.len(), cf.len()));
        }
        for j in 0..64 {
            let x = [b.at_f32(c, j), b.at(c, j / 8).as_array_ref()[j % 8], ch[j / 8].as_array_ref()[j % 8], cf[j]];
            for (k, x) in x.iter().enumerate() {
                reads += 1;
                if !same(*x, m[j]) {
                    return Err(format!("BufferRef channel {} (of base {}) sample {} accessor {} reads {} expected {}", c, base, j, ["at_f32", "at", "channel", "channel_f32"][k], x, m[j]));
                }
            }
        }
    }
    if depth > 0 && n > 0 {
        let first = r.below(n + 1);
        let k = r.usize(0, n - first);
        let s = b.subset(first, k);
        if s.channels() != k {
            return Err(format!("subset has {} channels instead of {}", s.channels(), k));
        }
        reads += check_ref(r, &s, base + first, model, depth - 1)?;
    }
    Ok(reads)
}

fn check_all(r: &mut Rng, b: &mut dyn Owned, model: &Model) -> Result<u64, String> {
    if b.chans() != model.len() {
        return Err(format!("{} channels instead of {}", b.chans(), model.len()));
    }
    if b.lens() != (8, 8) {
        return Err(format!("length {:?}", b.lens()));
    }
    let mut reads = 0;
    for c in 0..model.len() {
        for j in 0..64 {
            let x = [b.af(c, j), b.a(c, j / 8).as_array_ref()[j % 8], b.ch(c)[j / 8].as_array_ref()[j % 8], b.chf(c)[j], b.chfm(c)[j], b.chm(c)[j / 8].as_array_ref()[j % 8]];
            for (k, x) in x.iter().enumerate() {
                reads += 1;
                if !same(*x, model[c][j]) {
                    return Err(format!("channel {} sample {} accessor {} reads {} expected {}", c, j, k, x, model[c][j]));
                }
            }
        }
        if b.ch(c).len() != 8 || b.chf(c).len() != 64 || b.chm(c).len() != 8 || b.chfm(c).len() != 64 {
            return Err("channel slice length".into());
        }
    }
    reads += check_ref(r, &b.bref(), 0, model, 2)?;
    let mut m = b.bmut();
    if m.channels() != model.len() {
        return Err(format!("buffer_mut has {} channels", m.channels()));
    }
    for c in 0..model.len() {
        for j in 0..64 {
            let x = [m.at_f32(c, j), m.at(c, j / 8).as_array_ref()[j % 8], m.channel(c)[j / 8].as_array_ref()[j % 8], m.channel_f32(c)[j], m.at_mut(c, j / 8).as_array_ref()[j % 8]];
            for (k, x) in x.iter().enumerate() {
                reads += 1;
                if !same(*x, model[c][j]) {
                    return Err(format!("BufferMut channel {} sample {} accessor {} reads {} expected {}", c, j, k, x, model[c][j]));
                }
            }
        }
    }
    let back = m.buffer_ref();
    reads += check_ref(r, &back, 0, model, 1)?;
    Ok(reads)
}

fn make(r: &mut Rng) -> (Box<dyn Owned>, usize, String) {
    let k = r.below(16);
    let v: Box<dyn Owned> = match k {
        0 => Box::new(BufferArray::<U0>::new()),
        1 => Box::new(BufferArray::<U1>::new()),
        2 => Box::new(BufferArray::<U2>::new()),
        3 => Box::new(BufferArray::<U3>::new()),
        4 => Box::new(BufferArray::<U5>::new()),
        5 => Box::new(BufferArray::<U8>::new()),
        6 => Box::new(BufferArray::<U13>::new()),
        7 => Box::new(BufferArray::<U32>::new()),
        _ => {
            let c = *r.pick(&[0usize, 1, 2, 3, 4, 7, 16, 33]);
            return (Box::new(BufferVec::new(c)), c, format!("BufferVec({})", c));
        }
    };
    let c = [0, 1, 2, 3, 5, 8, 13, 32][k];
    (v, c, format!("BufferArray<U{}>", c))
}

fn case(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let (mut b, n, name) = make(r);
    let mut model: Model = vec![[0.0; 64]; n];
    let mut log = format!("{} ", name);
    let mut reads = check_all(r, &mut *b, &model)?;
    let ops = r.usize(5, 40);
    let mut copies: Vec<(Box<dyn Owned>, Model)> = vec![];
    for _ in 0..ops {
        let n = model.len();
        match r.below(12) {
            0 => {
                b.clr();
                for m in &mut model {
                    m.fill(0.0);
                }
                log.push_str("clear ");
            }
            1 => {
                let c = r.usize(0, 12);
                if b.size(c) {
                    model.resize(c, [0.0; 64]);
                    log.push_str(&format!("resize({}) ", c));
                }
            }
            2 => {
                copies.push((b.dup(), model.clone()));
                log.push_str("clone ");
            }
            3..=6 if n > 0 => {
                let c = r.below(n);
                let i = r.below(8);
                let j = r.below(64);
                match r.below(5) {
                    0 => {
                        let v = vals(r);
                        b.s(c, i, f32x8::new(v));
                        model[c][i * 8..i * 8 + 8].copy_from_slice(&v);
                        log.push_str("SET ");
                    }
                    1 => {
                        let v = val(r);
                        b.sf(c, j, v);
                        model[c][j] = v;
                        log.push_str("SETF ");
                    }
                    2 => {
                        let v = vals(r);
                        b.chm(c)[i] = f32x8::new(v);
                        model[c][i * 8..i * 8 + 8].copy_from_slice(&v);
                        log.push_str("CHM ");
                    }
                    3 => {
                        let v = val(r);
                        b.chm(c).fill(f32x8::splat(v));
                        model[c].fill(v);
                        log.push_str("CHFILL ");
                    }
                    _ => {
                        let v = val(r);
                        b.chfm(c)[j] = v;
                        model[c][j] = v;
                        log.push_str("CHFM ");
                    }
                }
            }
            _ => write_mut(r, &mut b.bmut(), 0, &mut model, &mut log)?,
        }
        rec.ctx = log.clone();
        reads += check_all(r, &mut *b, &model)?;
    }
    for (c, m) in copies.iter_mut() {
        reads += check_all(r, &mut **c, m).map_err(|e| format!("clone: {}", e))?;
    }
    rec.count("sample reads", reads);
    rec.count("operations", ops as u64);
    rec.distinct(&log);
    rec.sample = Some(log.chars().take(140).collect());
    Ok(())
}

/// Slices handed to BufferMut::new / BufferRef::new, and the conversion helpers.
fn raw(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let n = r.usize(0, 6);
    let guard = f32x8::splat(12345.0);
    let mut store = vec![guard; 8 + n * 8 + 8];
    let mut model: Model = vec![[0.0; 64]; n];
    for x in &mut store[8..8 + n * 8] {
        *x = f32x8::ZERO;
    }
    let mut log = format!("raw {} ", n);
    for _ in 0..r.usize(1, 30) {
        let mut b = BufferMut::new(&mut store[8..8 + n * 8]);
        write_mut(r, &mut b, 0, &mut model, &mut log)?;
    }
    let reads = check_ref(r, &BufferRef::new(&store[8..8 + n * 8]), 0, &model, 2)?;
    for i in (0..8).chain(8 + n * 8..16 + n * 8) {
        if store[i] != guard {
            return Err(format!("wrote outside the buffer at SIMD item {} ({})", i as i64 - 8, log));
        }
    }
    if BufferMut::empty().channels() != 0 || BufferRef::empty().channels() != 0 {
        return Err("empty buffer has channels".into());
    }
    for k in 0..=64 {
        let full = k / 8;
        let part = (k + 7) / 8;
        if fundsp::simd_items(k) != part || fundsp::full_simd_items(k) != full {
            return Err(format!("{} samples are {} / {} SIMD items", k, fundsp::simd_items(k), fundsp::full_simd_items(k)));
        }
    }
    rec.count("sample reads", reads);
    rec.distinct(&log);
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P25", "a history counts when it is a distinct sequence of buffer operations followed by reads through every accessor");
    let n = c.scale(20000, 400000);
    c.par("ops", n, |_, rec| case(rec));
    c.par("raw", n, |_, rec| raw(rec));
    c.finish();
}
