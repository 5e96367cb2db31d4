//! P12 workload for Miri: small runs of the code with unsafe blocks, raw views and atomics.
//! Units that render through uninitialised inline scratch buffers are left to MemorySanitizer.
use fundsp::hacker32::*;
use fundsp::ring::Ring;
use fundsp::sequencer::{Fade, Sequencer};
use fundsp::shared::{AtomicSynth, AtomicTable, Interpolation};
use fundsp::wide::f32x8;
use std::sync::Arc;
use vh::{Ctx, Rec, Rng};

fn buffers(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut a = BufferArray::<U3>::new();
    let mut v = BufferVec::new(3);
    for k in 0..12 {
        let c = r.below(3);
        let i = r.below(64);
        let x = r.f(-1.0, 1.0);
        match k % 6 {
            0 => {
                a.set_f32(c, i, x);
                v.set_f32(c, i, x);
            }
            1 => {
                a.channel_f32_mut(c)[i] = x;
                v.channel_f32_mut(c)[i] = x;
            }
            2 => {
                a.channel_mut(c)[i / 8] = f32x8::splat(x);
                v.channel_mut(c)[i / 8] = f32x8::splat(x);
            }
            3 => {
                let mut m = a.buffer_mut();
                let mut s = m.subset(c, 3 - c);
                s.channel_f32_mut(0)[i] = x;
                s.add(0, i / 8, f32x8::splat(x));
                let mut m = v.buffer_mut();
                let mut s = m.subset(c, 3 - c);
                s.channel_f32_mut(0)[i] = x;
                s.add(0, i / 8, f32x8::splat(x));
            }
            4 => {
                *a.buffer_mut().at_mut(c, i / 8) = f32x8::splat(x);
                *v.buffer_mut().at_mut(c, i / 8) = f32x8::splat(x);
            }
            _ => {
                a.buffer_mut().set(c, i / 8, f32x8::splat(x));
                v.buffer_mut().set(c, i / 8, f32x8::splat(x));
            }
        }
    }
    for c in 0..3 {
        for i in [0, 1, 7, 8, 31, 62, 63] {
            let x = a.at_f32(c, i);
            if x != v.at_f32(c, i) || x != a.channel_f32(c)[i] || x != v.buffer_ref().subset(c, 1).channel_f32(0)[i] || x != a.buffer_ref().channel(c)[i / 8].as_array_ref()[i & 7] {
                return Err(format!("accessors disagree on channel {} index {}", c, i));
            }
        }
    }
    v.resize(5);
    v.clear();
    a.clear();
    rec.distinct("buffers");
    Ok(())
}

fn tables(rec: &mut Rec) -> Result<(), String> {
    let table = Arc::new(AtomicTable::new(&[0.0, 1.0, 0.5, -0.5]));
    let mut s = AtomicSynth::<f32>::new(table.clone());
    s.set_interpolation(Interpolation::Cubic);
    let mut u: Box<dyn AudioUnit> = Box::new(An(s));
    let w = table.clone();
    let h = std::thread::spawn(move || {
        for i in 0..12 {
            w.set(i & 3, 0.1);
        }
    });
    for p in [0.0, 0.25, 0.999, 1.0] {
        table.read_linear(p);
        table.read_nearest(p);
        table.read_cubic(p);
    }
    for i in 0..12 {
        let mut o = [0.0];
        u.tick(&[(i as f32 - 4.0) * 7000.0], &mut o);
    }
    h.join().unwrap();
    let mut t: Box<dyn AudioUnit> = Box::new(tap(0.0001, 0.001));
    let mut l: Box<dyn AudioUnit> = Box::new(tap_linear(0.0001, 0.001));
    for i in 0..60 {
        let d = [-1.0, 0.0, 0.0001, 0.0005, 0.001, 5.0][i % 6];
        let mut o = [0.0];
        t.tick(&[1.0, d], &mut o);
        l.tick(&[1.0, d], &mut o);
    }
    rec.distinct("tables");
    Ok(())
}

fn run(u: &mut dyn AudioUnit, n: usize) {
    let mut ob = BufferVec::new(u.outputs());
    let mut o = vec![0.0; u.outputs()];
    for _ in 0..n {
        u.process(9, &BufferRef::empty(), &mut ob.buffer_mut());
        u.tick(&[], &mut o);
    }
}

fn net(rec: &mut Rec) -> Result<(), String> {
    let r = &mut rec.rng.fork();
    let mut net = Net::new(0, 2);
    let a = net.push(Box::new(dc(1.0)));
    let b = net.push(Box::new(pass()));
    let c = net.push(Box::new(pass() ^ pass()));
    net.connect(a, 0, b, 0);
    net.connect(b, 0, c, 0);
    net.pipe_output(c);
    let mut back = net.backend();
    let h = std::thread::spawn(move || {
        run(&mut back, 5);
        back
    });
    for k in 0..4 {
        match r.below(4) {
            0 => {
                net.replace(a, Box::new(dc(k as f32)));
            }
            1 => {
                net.crossfade(a, Fade::Smooth, 0.0002, Box::new(dc(k as f32)));
            }
            2 => {
                let d = net.push(Box::new(pass()));
                net.connect(a, 0, d, 0);
                net.connect_output(d, 0, 1);
            }
            _ => {
                net.disconnect(b, 0);
                net.connect(a, 0, b, 0);
            }
        }
        net.commit();
        std::thread::yield_now();
    }
    let mut back = h.join().map_err(|_| "backend panicked".to_string())?;
    run(&mut back, 3);
    rec.distinct("net");
    Ok(())
}

fn seq(rec: &mut Rec) -> Result<(), String> {
    let mut seq = Sequencer::new(true, 1);
    let mut back = seq.backend();
    let h = std::thread::spawn(move || {
        run(&mut back, 6);
        back
    });
    let mut ids = vec![];
    for k in 0..4 {
        ids.push(seq.push_relative(0.0, 0.0003, Fade::Power, 0.0001, 0.0001, Box::new(dc(k as f32))));
        std::thread::yield_now();
    }
    seq.edit_relative(ids[3], 0.0002, 0.0001);
    let mut back = h.join().map_err(|_| "backend panicked".to_string())?;
    run(&mut back, 3);
    rec.distinct("seq");
    Ok(())
}

fn slot(rec: &mut Rec) -> Result<(), String> {
    let (mut s, mut back) = Slot::new(Box::new(dc(0.0)));
    let h = std::thread::spawn(move || {
        run(&mut back, 5);
        back
    });
    for k in 0..4 {
        s.set(Fade::Smooth, 0.0002, Box::new(dc(k as f32)));
        std::thread::yield_now();
    }
    let mut back = h.join().map_err(|_| "backend panicked".to_string())?;
    run(&mut back, 3);
    rec.distinct("slot");
    Ok(())
}

fn channels(rec: &mut Rec) -> Result<(), String> {
    let (tx, ring) = Ring::<U2>::new(4);
    let (mut front, back) = snoop(64);
    let x = shared(0.0);
    let y = x.clone();
    let mut v: Box<dyn AudioUnit> = Box::new(var(&x));
    let h = std::thread::spawn(move || {
        let mut u: Box<dyn AudioUnit> = Box::new(ring);
        let mut s: Box<dyn AudioUnit> = Box::new(back);
        let mut o = [0.0; 2];
        let mut got = 0.0;
        for i in 0..130 {
            u.tick(&[], &mut o);
            if o[0] != 0.0 {
                if o[0] != got + 1.0 || o[1] != -o[0] {
                    return Err(format!("ring frame {:?} after {}", o, got));
                }
                got = o[0];
            }
            let mut z = [0.0];
            s.tick(&[i as f32], &mut z);
            y.set_value(i as f32);
        }
        Ok(())
    });
    let mut last = 0.0;
    let mut i = 1;
    let mut total = 0.0f32;
    for _ in 0..60 {
        if tx.try_send([i as f32, -(i as f32)].into()).is_ok() {
            i += 1;
        }
        let mut o = [0.0];
        v.tick(&[], &mut o);
        if o[0] < last {
            return Err("shared value went back".into());
        }
        last = o[0];
        if let Some(b) = front.get() {
            for k in 0..64 {
                if b.at(k) != total {
                    return Err(format!("snoop sample {}", b.at(k)));
                }
                total += 1.0;
            }
        }
        std::thread::yield_now();
    }
    h.join().map_err(|_| "panicked".to_string())??;
    rec.distinct("channels");
    Ok(())
}

fn main() {
    if std::env::var("P12_BUILD_ONLY").is_ok() {
        return;
    }
    let mut ctx = Ctx::new("P12", "kinds of workload interpreted by Miri to the end");
    let n = ctx.scale(1, 8);
    let _ = Rng::new(1);
    ctx.seq("miri_buffers", n, |_, rec| buffers(rec));
    ctx.seq("miri_tables", n, |_, rec| tables(rec));
    ctx.seq("miri_net", n, |_, rec| net(rec));
    ctx.seq("miri_seq", n, |_, rec| seq(rec));
    ctx.seq("miri_slot", n, |_, rec| slot(rec));
    ctx.seq("miri_channels", n, |_, rec| channels(rec));
    ctx.finish()
}
