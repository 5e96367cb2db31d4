Q="src/realseq.rs"
BUGS=[
dict(id="big-block-rounds-up",property="P01",edits=[("src/audiounit.rs",["fn process_big"],".process(n, &self.input","            .process(simd_items(n) << SIMD_S, &self.input".strip())],
 needs="process_big calls whose size is not a multiple of the SIMD width, on a unit with state",
 breaks="the unit is advanced by more samples than were asked for",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut a = sine_hz(440.0);
    let mut b = BigBlockAdapter::new(Box::new(sine_hz(440.0)));
    let mut left = vec![0.0f32; 200];
    let mut last = 0.0f32;
    for size in [128usize, 100, 64, 129] {
        b.process_big(size, &[], &mut [&mut left[..size]]);
        for i in 0..size { last = last.max((a.get_mono() - left[i]).abs()); }
    }
    println!("{}", last);
    assert!(last < 1.0e-3);
}
'''),
dict(id="afollow-reset-first-release",property="P02",edits=[("src/follow.rs",["AudioNode for AFollow<F>","fn reset"],"        self.rcoeff_now = F::one();\n","")],
 needs="afollow whose first sample after a reset is negative",
 breaks="after reset the follower does not jump to a negative first sample as a new one does",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut f = afollow(0.01, 0.02);
    let mut g = afollow(0.01, 0.02);
    for _ in 0..10 { f.filter_mono(1.0); }
    f.reset();
    for i in 0..10 {
        let (a, b) = (f.filter_mono(-1.0), g.filter_mono(-1.0));
        println!("{} {} {}", i, a, b);
        assert_eq!(a, b);
    }
}
'''),
dict(id="slot-clone-drops-queued-unit",property="P03",edits=[("src/slot.rs",["impl Clone for SlotBackend"],"latest: self.latest.clone(),","latest: None,")],
 needs="a slot backend cloned while a second replacement waits for the first crossfade to finish",
 breaks="the clone never fades to the unit that was waiting",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let (mut slot, mut back) = Slot::new(Box::new(dc(1.0)));
    let mut o = [0.0]; let mut p = [0.0];
    back.tick(&[], &mut o);
    slot.set(Fade::Smooth, 0.01, Box::new(dc(2.0)));
    back.tick(&[], &mut o);
    slot.set(Fade::Smooth, 0.01, Box::new(dc(3.0)));
    back.tick(&[], &mut o);
    let mut twin = back.clone();
    for _ in 0..3000 {
        back.tick(&[], &mut o);
        twin.tick(&[], &mut p);
        assert_eq!(o[0], p[0]);
    }
    println!("{:?} {:?}", o, p);
}
'''),
dict(id="seqback-edit-ends-batch",property="P09",edits=[(Q,["fn handle_messages"],"self.sequencer.edit(id, edit.end_time, edit.fade_out);","self.sequencer.edit(id, edit.end_time, edit.fade_out);\n                    break;")],
 needs="a push sent after an edit between the same two backend calls, starting at once",
 breaks="messages behind an edit are held back until the next call, so an event starts late",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut seq = Sequencer::new(false, 1);
    let mut back = seq.backend();
    let id = seq.push(0.0, 10.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
    let mut out = BufferVec::new(1);
    back.process(64, &BufferRef::empty(), &mut out.buffer_mut());
    seq.edit(id, 5.0, 0.0);
    seq.push(0.0, 10.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(10.0)));
    back.process(64, &BufferRef::empty(), &mut out.buffer_mut());
    println!("{}", out.at_f32(0, 63));
    assert_eq!(out.at_f32(0, 63), 11.0);
}
'''),
dict(id="snoop-overrun-skew",property="P16",edits=[("src/snoop.rs",["AudioNode for SnoopBackend","fn tick"],"""            if self.sender.try_send(self.buffer.clone()).is_ok() {}
            self.index = 0;""","""            if self.sender.try_send(self.buffer.clone()).is_ok() {
                self.index = 0;
            } else {
                self.index = MAX_BUFFER_SIZE - 1;
            }""")],
 needs="a snoop that is not polled while more than 65536 samples are ticked, and polled again later",
 breaks="the first buffer received after the overrun holds old samples followed by one new sample",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let (mut front, mut back) = snoop(64);
    let mut n = 0.0f32;
    for _ in 0..64 * 1030 { back.filter_mono(n); n += 1.0; }
    front.update();
    let before = front.total();
    for _ in 0..64 * 4 { back.filter_mono(n); n += 1.0; }
    let mut got = 0;
    while let Some(b) = front.get() {
        for i in 1..b.size() { assert_eq!(b.at(i), b.at(i - 1) + 1.0); }
        got += 1;
    }
    println!("{} {}", before, got);
    assert!(got >= 3);
}
'''),
dict(id="wave-retain-overlap",property="P17",edits=[("src/wave.rs",["pub fn retain"],"for i in i0..i1 {","for i in (i0..i1).rev() {")],
 needs="retain of a range that starts after zero and is longer than its offset",
 breaks="samples are overwritten before they are moved",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut w = Wave::from_samples(44100.0, &[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
    w.retain(2, 5);
    let v: Vec<f32> = (0..w.length()).map(|i| w.at(0, i)).collect();
    println!("{:?}", v);
    assert_eq!(v, vec![2.0, 3.0, 4.0, 5.0, 6.0]);
}
'''),
dict(id="buffer-array-clear-first",property="P25",edits=[("src/buffer.rs",["impl<N: ArrayLength> BufferArray","pub fn clear"],"self.array.fill([F32x::ZERO; SIMD_LEN]);","if let Some(x) = self.array.first_mut() { x.fill(F32x::ZERO); }")],
 needs="clearing a BufferArray with more than one channel",
 breaks="channels after the first keep their old contents",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut b = BufferArray::<U3>::new();
    for c in 0..3 { for i in 0..64 { b.set_f32(c, i, 1.0); } }
    b.clear();
    for c in 0..3 { for i in 0..64 { assert_eq!(b.at_f32(c, i), 0.0); } }
}
'''),
]
BUGS.append(dict(id="atomic-table-past-end",property="P12",edits=[("src/shared.rs",["pub fn at(&self, i: usize)"],"f32::get_stored(&self.table[i])","// Safety: callers mask their indices.\n        unsafe { f32::get_stored(self.table.get_unchecked(i)) }"),
 ("src/shared.rs",["pub fn read_linear"],"let i1 = (i0 + 1) & mask;","let i1 = i0 + 1;")],
 needs="linear interpolation between the last and the first sample of an atomic table",
 breaks="the read goes past the end of the table's allocation",
 main=r'''use fundsp::hacker32::*;
use fundsp::shared::AtomicTable;
fn main() {
    for bits in 1..8 {
        let n = 1usize << bits;
        let _hole: Vec<Vec<f32>> = (0..16).map(|_| vec![777.0f32; n]).collect();
        drop(_hole);
        let t = AtomicTable::new(&vec![1.0f32; n]);
        let y = t.read_linear((n as f32 - 0.5) / n as f32);
        println!("{} {}", n, y);
        assert_eq!(y, 1.0);
    }
}
'''))
BUGS.append(dict(id="moog-late-saturation",property="P26",edits=[("src/moog.rs",["fn tick"],"self.s3 = tanh((self.s2 + self.ps2) * self.p - self.k * self.s3);","self.s3 = (self.s2 + self.ps2) * self.p - self.k * self.s3;\n        if abs(self.s3) < F::new(4) {\n            self.s3 = tanh(self.s3);\n        }")],
 needs="a Moog filter driven hard enough for its fourth stage to leave -4...4 before saturation",
 breaks="the ladder no longer saturates large signals, so resonant settings blow up",
 main=r'''use fundsp::hacker32::*;
fn main() {
    let mut peak = 0.0f32;
    for q in [0.5, 0.9, 0.99] {
        for fc in [500.0, 5000.0, 12000.0] {
            let mut m = moog_hz(fc, q);
            for i in 0..20000 {
                let x = if (i / 40) % 2 == 0 { 20.0 } else { -20.0 };
                let y = m.filter_mono(x);
                peak = if y.is_finite() { peak.max(y.abs()) } else { f32::INFINITY };
            }
        }
    }
    println!("{}", peak);
    assert!(peak <= 1.0);
}
'''))
