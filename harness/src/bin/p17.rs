//! P17: Wave behaves as an array of channels and survives file I/O.
use fundsp::hacker32::*;
use std::io::Write;
use std::sync::Arc;
use vh::dunit::*;
use vh::{audio, compare, partition, rate, render, Chans, Ctx, Rec, Rng, Runner};

fn samples(r: &mut Rng, n: usize) -> Vec<f32> {
    let a = *r.pick(&[1.0f32, 0.3, 3.0, 0.0]);
    audio(r, n).into_iter().map(|x| x * a).collect()
}

fn check(w: &Wave, m: &Chans, sr: f64, log: &str) -> Result<(), String> {
    let len = if m.is_empty() { 0 } else { m[0].len() };
    if w.channels() != m.len() || w.length() != len || w.len() != len || w.is_empty() != (len == 0) {
        return Err(format!("{} channels, length {}, expected {} x {} ({})", w.channels(), w.length(), m.len(), len, log));
    }
    if w.sample_rate() != sr {
        return Err(format!("sample rate {} expected {}", w.sample_rate(), sr));
    }
    if (w.duration() - len as f64 / sr).abs() > 1e-12 * len as f64 {
        return Err(format!("duration {} of {} samples at {}", w.duration(), len, sr));
    }
    let mut peak = 0.0f32;
    for c in 0..m.len() {
        let ch = w.channel(c);
        if ch.len() != len {
            return Err(format!("channel {} has {} of {} samples ({})", c, ch.len(), len, log));
        }
        for i in 0..len {
            let e = m[c][i];
            peak = f32::max(peak, e.abs());
            if !((ch[i] - e).abs() <= 1e-6 * f32::max(1.0, e.abs())) || w.at(c, i) != ch[i] {
                return Err(format!("channel {} sample {} is {} / {}, expected {} ({})", c, i, ch[i], w.at(c, i), e, log));
            }
        }
    }
    if (w.amplitude() - peak).abs() > 1e-5 * f32::max(1.0, peak) {
        return Err(format!("amplitude {} expected {} ({})", w.amplitude(), peak, log));
    }
    Ok(())
}

fn smooth5(x: f64) -> f64 {
    ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
}

fn edit(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut sr = rate(r);
    let mut log = String::new();
    let (mut w, mut m): (Wave, Chans) = match r.below(5) {
        0 => {
            let c = r.usize(0, 4);
            (Wave::new(c, sr), vec![vec![]; c])
        }
        1 => {
            let c = r.usize(0, 4);
            (Wave::with_capacity(c, sr, r.usize(0, 1000)), vec![vec![]; c])
        }
        2 => {
            let c = r.usize(1, 4);
            let n = r.usize(0, 300);
            let d = n as f64 / sr + r.uni(-0.4, 0.4) / sr;
            (Wave::zero(c, sr, f64::max(0.0, d)), vec![vec![0.0; n]; c])
        }
        _ => {
            let n = r.usize(0, 300);
            let x = samples(r, n);
            (Wave::from_samples(sr, &x), vec![x])
        }
    };
    check(&w, &m, sr, "new")?;
    for _ in 0..r.usize(3, 25) {
        let ch = m.len();
        let len = if ch > 0 { m[0].len() } else { 0 };
        match r.below(19) {
            0 => {
                let x = samples(r, if ch == 0 { 50 } else { len });
                w.push_channel(&x);
                m.push(x);
                log.push_str("push_channel ");
            }
            1 => {
                let x = samples(r, if ch == 0 { 70 } else { len });
                let k = r.usize(0, ch);
                w.insert_channel(k, &x);
                m.insert(k, x);
                log.push_str(&format!("insert_channel({}) ", k));
            }
            2 if ch > 0 => {
                let k = r.below(ch);
                let got = w.remove_channel(k);
                let want = m.remove(k);
                log.push_str(&format!("remove_channel({}) ", k));
                if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| (a - b).abs() > 1e-6 * f32::max(1.0, b.abs())) {
                    return Err(format!("removed channel differs ({})", log));
                }
            }
            3 if ch > 0 => {
                let n = r.usize(0, 200);
                let x = samples(r, n);
                let off = r.int(-250, len as i64 + 50) as isize;
                let k = r.below(ch);
                w.mix_channel(k, off, &x);
                for (j, v) in x.iter().enumerate() {
                    let i = off + j as isize;
                    if i >= 0 && (i as usize) < len {
                        m[k][i as usize] += v;
                    }
                }
                log.push_str(&format!("mix_channel({},{},{}) ", k, off, n));
            }
            4 if len > 0 => {
                let (c, i, v) = (r.below(ch), r.below(len), r.f(-2.0, 2.0));
                w.set(c, i, v);
                m[c][i] = v;
                log.push_str("set ");
            }
            5 if len > 0 => {
                let (c, i, v) = (r.below(ch), r.below(len), r.f(-2.0, 2.0));
                w.mix(c, i, v);
                m[c][i] += v;
                log.push_str("mix ");
            }
            6 => {
                let v = r.f(-1.0, 1.0);
                w.push(v);
                for c in &mut m {
                    c.push(v);
                }
                log.push_str("push ");
            }
            7 => {
                let (a, b, c) = (r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0));
                match ch {
                    2 => {
                        w.push((a, b));
                        m[0].push(a);
                        m[1].push(b);
                    }
                    3 => {
                        w.push((a, b, c));
                        m[0].push(a);
                        m[1].push(b);
                        m[2].push(c);
                    }
                    _ => (),
                }
                log.push_str("push_frame ");
            }
            8 if ch > 0 => {
                let n = r.usize(0, 400);
                w.resize(n);
                for c in &mut m {
                    c.resize(n, 0.0);
                }
                log.push_str(&format!("resize({}) ", n));
            }
            9 | 10 if ch > 0 => {
                let start = r.int(-(len as i64) - 20, len as i64 + 40) as isize;
                let n = r.usize(0, len + 60);
                log.push_str(&format!("retain({},{}) of {} ", start, n, len));
                w.retain(start, n);
                let lo = start.clamp(0, len as isize) as usize;
                let hi = (start + n as isize).clamp(lo as isize, len as isize) as usize;
                for c in &mut m {
                    *c = c[lo..hi].to_vec();
                }
            }
            11 if ch > 0 => {
                let n = r.usize(0, 100);
                let mut other = Wave::new(0, rate(r));
                let mut om = vec![];
                for _ in 0..ch {
                    let x = samples(r, n);
                    other.push_channel(&x);
                    om.push(x);
                }
                w.append(&other);
                check(&other, &om, other.sample_rate(), "append source")?;
                for c in 0..ch {
                    m[c].extend_from_slice(&om[c]);
                }
                log.push_str(&format!("append({}) ", n));
            }
            12 => {
                let a = r.f(-2.0, 2.0);
                w.amplify(a);
                for c in &mut m {
                    for x in c.iter_mut() {
                        *x *= a;
                    }
                }
                log.push_str("amplify ");
            }
            13 => {
                let p = m.iter().flatten().fold(0.0f32, |p, x| f32::max(p, x.abs()));
                // Extremely small peaks have no reciprocal.
                if p == 0.0 || p > 1e-30 {
                    w.normalize();
                    if p > 0.0 {
                        for c in &mut m {
                            for x in c.iter_mut() {
                                *x /= p;
                            }
                        }
                        if (w.amplitude() - 1.0).abs() > 1e-6 {
                            return Err(format!("normalized amplitude {}", w.amplitude()));
                        }
                    }
                    log.push_str("normalize ");
                }
            }
            14 | 15 | 16 => {
                let kind = r.below(3);
                let t = r.uni(0.0, 1.4) * len as f64 / sr;
                let n = f64::min(t * sr, len as f64).round() as usize;
                // Rounding of the fade length at exact halves is not specified.
                if ((t * sr).fract() - 0.5).abs() < 1e-6 {
                    continue;
                }
                match kind {
                    0 => w.fade_in(t),
                    1 => w.fade_out(t),
                    _ => w.fade(t),
                }
                let before = m.clone();
                for c in 0..ch {
                    for i in 0..n {
                        let a = smooth5((i + 1) as f64 / (n + 1) as f64) as f32;
                        if kind != 1 {
                            m[c][i] *= a;
                        }
                        if kind != 0 {
                            m[c][len - 1 - i] *= a;
                        }
                    }
                }
                // Independently of the curve: monotone weights in 0...1, and nothing beyond is touched.
                for c in 0..ch {
                    for i in 0..len {
                        if w.at(c, i).abs() > before[c][i].abs() * 1.00001 + 1e-30 {
                            return Err(format!("fade amplified sample {} ({})", i, log));
                        }
                    }
                }
                log.push_str(&format!("fade{}({}) ", kind, n));
            }
            17 => {
                sr = rate(r);
                w.set_sample_rate(sr);
                log.push_str("rate ");
            }
            _ if len > 0 => {
                let (c, i, v) = (r.below(ch), r.below(len), r.f(-2.0, 2.0));
                w.channel_mut(c)[i] = v;
                m[c][i] = v;
                let d = w.clone();
                check(&d, &m, sr, "clone")?;
                log.push_str("channel_mut ");
            }
            _ => (),
        }
        rec.ctx = log.clone();
        check(&w, &m, sr, &log)?;
        // Rounding of products must not accumulate into the tolerance.
        for c in 0..m.len() {
            m[c].copy_from_slice(w.channel(c));
        }
        rec.count("edits", 1);
    }
    rec.distinct(&log);
    rec.sample = Some(log.chars().take(140).collect());
    Ok(())
}

fn gen(r: &mut Rng) -> (Box<dyn AudioUnit>, &'static str) {
    match r.below(7) {
        0 => (DUnit::boxed(r.u64(), 0, 1), "test unit 1"),
        1 => (DUnit::boxed(r.u64(), 0, 2), "test unit 2"),
        2 => (DUnit::boxed(r.u64(), 0, 5), "test unit 5"),
        3 => (Box::new(sine_hz(r.lf(50.0, 2000.0))), "sine_hz"),
        4 => (Box::new(white() | pink()), "white | pink"),
        5 => (Box::new(white() >> lowpass_hz(1000.0, 1.0) >> pan(0.3)), "filtered pan"),
        _ => (Box::new(lfo(|t: f32| 1.0 / (1.0 + t))), "lfo"),
    }
}

fn proc(r: &mut Rng) -> (Box<dyn AudioUnit>, &'static str) {
    match r.below(8) {
        0 => (DUnit::boxed(r.u64(), 1, 1), "test unit 1"),
        1 => (DUnit::boxed(r.u64(), 2, 1), "test unit 2-1"),
        2 => (DUnit::boxed(r.u64(), 2, 3), "test unit 2-3"),
        3 => (DUnit::boxed(r.u64(), 3, 2), "test unit 3-2"),
        4 => (Box::new(lowpass_hz(500.0, 1.0)), "lowpass"),
        5 => (Box::new(delay(0.003) | pass()), "delay"),
        6 => (Box::new(pass() ^ highpole_hz(100.0)), "branch"),
        _ => (Box::new(feedback(delay(0.001) * 0.5)), "feedback"),
    }
}

fn duration(r: &mut Rng, sr: f64) -> (f64, usize) {
    let n = *r.pick(&[0usize, 1, 7, 8, 63, 64, 65, 128, 200, 511, 1000]) + r.below(3);
    (f64::max(0.0, n as f64 + r.uni(-0.4, 0.4)) / sr, n)
}

fn rendering(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (d, n) = duration(r, sr);
    let (mut a, name) = gen(r);
    if r.chance(0.3) {
        a.set_sample_rate(rate(r));
    }
    let mut b = a.clone();
    let w = Wave::render(sr, d, &mut *a);
    b.set_sample_rate(sr);
    let p = partition(r, n);
    let want = render(&mut *b, &[], &p);
    let got: Chans = (0..w.channels()).map(|c| w.channel(c).clone()).collect();
    rec.ctx = format!("render {} at {} for {}", name, sr, d);
    check(&w, &got, sr, "render")?;
    compare(&want, &got, 2e-3, 2e-3)?;
    rec.count("rendered samples", n as u64);
    if n > 1 {
        rec.distinct(&rec.ctx.clone());
    }
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}

fn filtering(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let sr = rate(r);
    let (d, n) = duration(r, sr);
    let (_, len) = duration(r, sr);
    let (mut a, name) = proc(r);
    if r.chance(0.3) {
        a.set_sample_rate(rate(r));
    }
    let mut b = a.clone();
    let mut x: Chans = (0..a.inputs()).map(|_| audio(r, len)).collect();
    let mut src = Wave::new(0, sr);
    for c in &x {
        src.push_channel(c);
    }
    let w = src.filter(d, &mut *a);
    b.set_sample_rate(sr);
    for c in &mut x {
        c.resize(n, 0.0);
    }
    let p = partition(r, n);
    let want = render(&mut *b, &x, &p);
    let got: Chans = (0..w.channels()).map(|c| w.channel(c).clone()).collect();
    rec.ctx = format!("filter {} at {} for {} of {} samples", name, sr, d, len);
    check(&w, &got, sr, "filter")?;
    compare(&want, &got, 2e-3, 2e-3)?;
    rec.count("filtered samples", n as u64);
    if n > 1 {
        rec.distinct(&rec.ctx.clone());
    }
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}

/// Single-frame helpers of AudioUnit.
fn helpers(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let (seed, o) = (r.u64(), r.usize(1, 2));
    let mut g = DUnit::boxed(seed, 0, o);
    let mut m = DRef::new(seed, 0, o, true);
    for _ in 0..40 {
        let v = m.tick(&[]);
        if r.chance(0.5) {
            let x = g.get_mono();
            let e = if o == 1 { v[0] } else { (v[0] + v[1]) * 0.5 };
            if (x - e).abs() > 1e-5 {
                return Err(format!("get_mono {} expected {}", x, e));
            }
        } else {
            let x = g.get_stereo();
            if (x.0 - v[0]).abs() > 1e-5 || (x.1 - v[o - 1]).abs() > 1e-5 {
                return Err(format!("get_stereo {:?} expected {:?}", x, v));
            }
        }
    }
    let mut f = DUnit::boxed(seed, 1, 1);
    let mut m = DRef::new(seed, 1, 1, true);
    let mut f2 = DUnit::boxed(seed, 2, 2);
    let mut m2 = DRef::new(seed, 2, 2, true);
    for _ in 0..40 {
        let (x, y) = (r.f(-1.0, 1.0), r.f(-1.0, 1.0));
        let a = f.filter_mono(x);
        let e = m.tick(&[x])[0];
        let b = f2.filter_stereo(x, y);
        let e2 = m2.tick(&[x, y]);
        if (a - e).abs() > 1e-5 || (b.0 - e2[0]).abs() > 1e-5 || (b.1 - e2[1]).abs() > 1e-5 {
            return Err(format!("filter_mono {} expected {}, filter_stereo {:?} expected {:?}", a, e, b, e2));
        }
    }
    rec.distinct(&format!("{} {}", seed, o));
    Ok(())
}

fn player(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let len = r.usize(1, 300);
    let ch = r.usize(1, 3);
    let x: Chans = (0..ch).map(|_| audio(r, len)).collect();
    let mut w = Wave::new(0, rate(r));
    for c in &x {
        w.push_channel(c);
    }
    let w = Arc::new(w);
    let c = r.below(ch);
    let whole = r.chance(0.4);
    let (a, b) = if whole {
        (0, len)
    } else {
        let a = r.below(len);
        (a, r.usize(a, len))
    };
    let lp = if b > a && r.chance(0.5) { Some(r.below(b)) } else { None };
    let mut u: Box<dyn AudioUnit> = if whole { Box::new(wavech(&w, c, lp)) } else { Box::new(wavech_at(&w, c, a, b, lp)) };
    rec.ctx = format!("wave of {}, play {}..{} loop {:?}", len, a, b, lp);
    let n = r.usize(1, 900);
    let mut pos = a;
    let mut run = Runner::new(&*u);
    let mut out: Chans = vec![vec![]];
    let mut want = vec![];
    for st in partition(r, n) {
        if r.chance(0.02) {
            u.reset();
            pos = a;
        }
        if r.chance(0.02) {
            // Playback is at the rate of the context, no resampling.
            u.set_sample_rate(rate(r));
        }
        run.step(&mut *u, st, &[], &mut out);
        while want.len() < out[0].len() {
            if pos < b {
                want.push(x[c][pos]);
                pos += 1;
                if pos == b {
                    if let Some(l) = lp {
                        pos = l;
                    }
                }
            } else {
                want.push(0.0);
            }
        }
    }
    for i in 0..n {
        if out[0][i] != want[i] {
            return Err(format!("sample {} is {}, expected {}", i, out[0][i], want[i]));
        }
    }
    rec.count("played samples", n as u64);
    rec.distinct(&rec.ctx.clone());
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}

/// A writer that accepts `limit` bytes, in odd chunks, and then fails.
struct Faulty {
    data: Vec<u8>,
    limit: usize,
    chunk: usize,
    interrupt: bool,
    count: usize,
    zero: bool,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.count += 1;
        if self.interrupt && self.count % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.limit - self.data.len();
        if room == 0 {
            return if self.zero { Ok(0) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "device full")) };
        }
        let n = *[b.len(), room, self.chunk].iter().min().unwrap();
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn make_wave(r: &mut Rng, maxlen: usize) -> (Wave, Chans) {
    let most = if r.chance(0.2) { 8 } else { 2 };
    let ch = r.usize(1, most);
    let len = r.usize(1, maxlen);
    let sr = if r.chance(0.8) { rate(r) } else { r.usize(1, 400000) as f64 };
    let mut w = Wave::new(0, sr);
    let mut m = vec![];
    for _ in 0..ch {
        let mut x = samples(r, len);
        // Corners of the formats.
        for _ in 0..r.below(4) {
            let k = r.below(len);
            x[k] = *r.pick(&[1.0f32, -1.0, 0.99999, -0.99999, 1.5, -7.0, 1e-5, -1e-9, 0.0, 1.0 / 32768.0]);
        }
        w.push_channel(&x);
        m.push(x);
    }
    (w, m)
}

fn parse(b: &[u8], bits: usize, m: &Chans, sr: f64) -> Result<(), String> {
    let u16_ = |k: usize| b[k] as u32 | (b[k + 1] as u32) << 8;
    let u32_ = |k: usize| u16_(k) | u16_(k + 2) << 16;
    let (ch, len) = (m.len(), m[0].len());
    let data = ch * len * bits / 8;
    if b.len() < 44 {
        return Err(format!("file of {} bytes", b.len()));
    }
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" {
        return Err("not a RIFF/WAVE file".into());
    }
    if u32_(4) as usize != b.len() - 8 {
        return Err(format!("RIFF size {} of a {} byte file", u32_(4), b.len()));
    }
    // Walk the chunks.
    let mut k = 12;
    let mut fmt = false;
    while k + 8 <= b.len() {
        let size = u32_(k + 4) as usize;
        if &b[k..k + 4] == b"fmt " {
            fmt = true;
            let f = k + 8;
            let want = (if bits == 16 { 1 } else { 3 }, ch as u32, sr.round() as u32, (sr.round() as usize * ch * bits / 8) as u32, (ch * bits / 8) as u32, bits as u32);
            let got = (u16_(f), u16_(f + 2), u32_(f + 4), u32_(f + 8), u16_(f + 12), u16_(f + 14));
            if got != want {
                return Err(format!("fmt chunk {:?} expected {:?}", got, want));
            }
        } else if &b[k..k + 4] == b"data" {
            if !fmt {
                return Err("data before fmt".into());
            }
            if size != data || b.len() < k + 8 + data {
                return Err(format!("data chunk of {} bytes, expected {}", size, data));
            }
            for i in 0..len {
                for c in 0..ch {
                    let p = k + 8 + (i * ch + c) * bits / 8;
                    let x = m[c][i];
                    if bits == 16 {
                        let v = u16_(p) as u16 as i16 as f64;
                        let e = x.clamp(-1.0, 1.0) as f64 * 32767.5;
                        if (v - e).abs() > 1.01 {
                            return Err(format!("16-bit sample {} of channel {} is {} for {}", i, c, v, x));
                        }
                    } else {
                        let v = f32::from_bits(u32_(p));
                        if v != x {
                            return Err(format!("32-bit sample {} of channel {} is {} for {}", i, c, v, x));
                        }
                    }
                }
            }
            return Ok(());
        }
        k += 8 + size;
    }
    Err("no data chunk".into())
}

fn back(w: &Wave, bits: usize, m: &Chans, sr: f64) -> Result<(), String> {
    if w.sample_rate() != sr.round() || w.channels() != m.len() || w.length() != m[0].len() {
        return Err(format!("read back rate {} channels {} length {}, written {} {} {}", w.sample_rate(), w.channels(), w.length(), sr, m.len(), m[0].len()));
    }
    for c in 0..m.len() {
        for i in 0..m[0].len() {
            let (x, y) = (m[c][i], w.at(c, i));
            let ok = if bits == 16 { (x.clamp(-1.0, 1.0) - y).abs() <= 1.05 / 32768.0 } else { x == y };
            if !ok {
                return Err(format!("{}-bit sample {} of channel {} reads back as {}, was {}", bits, i, c, y, x));
            }
        }
    }
    Ok(())
}

fn round_trip(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let long = r.chance(0.1);
    let (w, m) = make_wave(r, if long { *r.clone().pick(&[20000usize, 20000, 20000, 100000]) } else { 600 });
    let bits = *r.pick(&[16usize, 32]);
    let sr = w.sample_rate();
    rec.ctx = format!("{} bits, {} channels, {} samples at {}", bits, m.len(), m[0].len(), sr);
    let mut f = Faulty { data: vec![], limit: usize::MAX, chunk: *r.pick(&[1usize, 3, 100, 1 << 20]), interrupt: r.chance(0.3), count: 0, zero: false };
    let res = if bits == 16 { w.write_wav16(&mut f) } else { w.write_wav32(&mut f) };
    res.map_err(|e| format!("write failed: {}", e))?;
    parse(&f.data, bits, &m, sr)?;
    let total = f.data.len();
    // symphonia handles up to 18 named channels; other tools do not matter here.
    let b = Wave::load_slice(f.data.clone()).map_err(|e| format!("load_slice failed: {}", e))?;
    back(&b, bits, &m, sr)?;
    // Injected failures: report exactly when something was lost.
    for _ in 0..6 {
        let limit = match r.below(4) {
            0 => r.below(60),
            1 => total - 1 - r.below(Ord::min(total - 1, 50)),
            2 => total + r.below(2),
            _ => r.below(total),
        };
        let mut g = Faulty { data: vec![], limit, chunk: 1 << 16, interrupt: r.chance(0.2), count: 0, zero: r.chance(0.3) };
        let res = if bits == 16 { w.write_wav16(&mut g) } else { w.write_wav32(&mut g) };
        rec.count("write faults injected", 1);
        if res.is_ok() && g.data != f.data {
            return Err(format!("write reported success with {} of {} bytes written", g.data.len(), total));
        }
        if res.is_err() && limit >= total {
            return Err(format!("write of {} bytes failed with room for {}", total, limit));
        }
    }
    rec.distinct(&rec.ctx.clone());
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}

fn files(rec: &mut Rec, dir: &std::path::Path, i: usize) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let (w, m) = make_wave(r, 3000);
    let bits = *r.pick(&[16usize, 32]);
    rec.ctx = format!("file {} bits, {} channels, {} samples", bits, m.len(), m[0].len());
    let p = dir.join(format!("w{}.wav", i));
    let save = |w: &Wave, p: &std::path::Path| if bits == 16 { w.save_wav16(p) } else { w.save_wav32(p) };
    if r.chance(0.3) {
        // An older, longer file has to be replaced.
        std::fs::write(&p, vec![7u8; 200_000]).map_err(|e| e.to_string())?;
    }
    save(&w, &p).map_err(|e| format!("save failed: {}", e))?;
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    parse(&b, bits, &m, w.sample_rate())?;
    back(&Wave::load(&p).map_err(|e| format!("load failed: {}", e))?, bits, &m, w.sample_rate())?;
    back(&Wave::load_track(&p, Some(0)).map_err(|e| format!("load_track failed: {}", e))?, bits, &m, w.sample_rate())?;
    back(&Wave::load_slice_track(b, None).map_err(|e| format!("load_slice_track failed: {}", e))?, bits, &m, w.sample_rate())?;
    // Failures are reported.
    if save(&w, &dir.join("nowhere").join("x.wav")).is_ok() {
        return Err("saving into a missing folder reported success".into());
    }
    if std::path::Path::new("/dev/full").exists() && save(&w, std::path::Path::new("/dev/full")).is_ok() {
        return Err("saving to a full device reported success".into());
    }
    if Wave::load(dir.join("missing.wav")).is_ok() || Wave::load_slice(vec![1u8, 2, 3]).is_ok() {
        return Err("loading nothing reported success".into());
    }
    let _ = std::fs::remove_file(&p);
    rec.distinct(&rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P17", "distinct edit histories, renderings, filterings, playbacks and file round trips with samples in them");
    let n = c.scale(80000, 1800000);
    c.par("edit", n, |_, rec| edit(rec));
    c.par("render", n / 4, |_, rec| rendering(rec));
    c.par("filter", n / 4, |_, rec| filtering(rec));
    c.par("player", n / 4, |_, rec| player(rec));
    c.par("helpers", n / 20, |_, rec| helpers(rec));
    c.par("round_trip", n / 20, |_, rec| round_trip(rec));
    let dir = std::env::temp_dir().join(format!("p17-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d = &dir;
    c.par("files", n / 100, |i, rec| files(rec, d, i));
    let _ = std::fs::remove_dir_all(&dir);
    c.assumptions.push("waves written to files have at least one sample".into());
    c.finish();
}
