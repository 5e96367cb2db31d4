BUGS=[
dict(id="seq-edit-relative-ready",property="P08",edits=[("src/sequencer.rs","""                Edit {
                    end_time: self.time + end_time,
                    fade_out: fade_out_time,""","""                Edit {
                    end_time,
                    fade_out: fade_out_time,""")],
 needs="edit_relative of an event that has not started yet, after some time has been rendered",
 breaks="the new end time of a waiting event is taken as absolute instead of relative to current time, so the event ends too early",
 main=r'''use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
fn main() {
    let mut s = Sequencer::new(false, 1);
    let mut o = [0.0];
    for _ in 0..4410 { s.tick(&[], &mut o); }
    let id = s.push(0.2, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
    s.edit_relative(id, 0.15, 0.0); // ends at 0.25 s
    let mut n = 0;
    for _ in 0..44100 { s.tick(&[], &mut o); if o[0] != 0.0 { n += 1; } }
    println!("{} samples", n);
    assert!((n as i32 - 2205).abs() <= 1);
}
'''),
dict(id="net-commit-restarts-crossfade",property="P07",edits=[("src/net.rs","                    new.vertex[new_index].fade_phase = self.vertex[index].fade_phase;\n","")],
 needs="a commit of an unrelated edit while a node of the backend is in the middle of a crossfade",
 breaks="the crossfade under way starts over from the old unit",
 main=r'''use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
fn main() {
    let mut net = Net::new(0, 1);
    let id = net.chain(Box::new(dc(0.0)));
    let mut back = net.backend();
    net.crossfade(id, Fade::Smooth, 1000.0 / 44100.0, Box::new(dc(1.0)));
    net.commit();
    let mut o = [0.0];
    for _ in 0..800 { back.tick(&[], &mut o); }
    let before = o[0];
    net.push(Box::new(dc(0.5)));
    net.commit();
    back.tick(&[], &mut o);
    println!("{} {}", before, o[0]);
    assert!((o[0] - before).abs() < 0.05);
}
'''),
dict(id="slot-chained-fade-time",property="P10",edits=[("src/slot.rs","        self.fade_time = self.latest_fade_time;\n","")],
 needs="a unit set while a crossfade is under way, with a different fade time than the fade under way",
 breaks="the queued replacement fades with the time of the previous one",
 main=r'''use fundsp::hacker32::*;
use fundsp::sequencer::Fade;
fn main() {
    let (mut slot, mut back) = Slot::new(Box::new(dc(0.0)));
    slot.set(Fade::Smooth, 100.0 / 44100.0, Box::new(dc(0.0)));
    slot.set(Fade::Smooth, 2000.0 / 44100.0, Box::new(dc(1.0)));
    let mut o = [0.0];
    for _ in 0..600 { back.tick(&[], &mut o); }
    println!("{}", o[0]);
    assert!(o[0] < 0.5);
}
'''),
]
