//! Units that report through a shared variable instead of an output.
use crate::core::*;
use crate::run::*;
use fundsp::prelude::*;

/// A unit with one input and output, and the variable it reports to.
pub fn watched(r: &mut Rng) -> (String, Shared, Box<dyn AudioUnit>) {
    let s = shared(0.0);
    let m = match r.below(3) {
        0 => Meter::Sample,
        1 => Meter::Peak(r.log(0.001, 0.5)),
        _ => Meter::Rms(r.log(0.001, 0.5)),
    };
    let md = match m {
        Meter::Sample => "Sample".to_string(),
        Meter::Peak(t) => format!("Peak({})", t),
        Meter::Rms(t) => format!("Rms({})", t),
    };
    let (name, u): (String, Box<dyn AudioUnit>) = match r.below(6) {
        0 => ("timer".into(), Box::new(timer(&s) | pass())),
        1 => (format!("monitor {}", md), Box::new(monitor(&s, m))),
        2 => (format!("pass >> monitor {}", md), Box::new(pass() >> monitor(&s, m) >> pass())),
        3 => (format!("net of monitor {}", md), Box::new(Net::wrap(Box::new(monitor(&s, m))))),
        4 => (format!("boxed monitor {}", md), Box::new(unit::<U1, U1>(Box::new(monitor(&s, m))) & pass())),
        _ => ("net with timer".into(), Box::new(Net::wrap(Box::new(pass())) | Net::wrap(Box::new(timer(&s))))),
    };
    (name, s, u)
}

/// Render and return what the variable read after each step.
pub fn watch(u: &mut dyn AudioUnit, s: &Shared, x: &Chans, steps: &[usize]) -> Vec<f32> {
    let mut pos = 0;
    let mut out = vec![];
    for st in steps {
        let len = if *st == TICK { 1 } else { *st };
        let part: Chans = x.iter().map(|c| c[pos..pos + len].to_vec()).collect();
        render(u, &part, &[*st]);
        pos += len;
        out.push(s.value());
    }
    out
}
