//! Random graph generator over static combinators, nets, slots and sequencers.
use crate::catalog::*;
use crate::core::*;
use fundsp::hacker::*;
use std::collections::HashMap;

pub struct Gen {
    pool: HashMap<(usize, usize), Vec<Entry>>,
    /// Only graphs whose inner lifecycle is simple (no slot/net backends).
    pub plain: bool,
}

/// A generated graph with a description.
pub struct G {
    pub unit: B,
    pub desc: String,
}

type B = Box<dyn AudioUnit>;

impl Gen {
    pub fn new(reject: u32) -> Gen {
        let mut pool: HashMap<(usize, usize), Vec<Entry>> = HashMap::new();
        for e in all() {
            if e.flags & (reject | CHAOTIC) != 0 || !e.audio_only() {
                continue;
            }
            if matches!(e.name, "sequencer" | "slot_backend" | "net_backend") || e.tol > 1200.0 || e.flags & DRIFT != 0 {
                continue;
            }
            let u = e.build(&mut Rng::new(1), 44100.0);
            pool.entry((u.inputs(), u.outputs())).or_default().push(e.clone());
        }
        Gen { pool, plain: false }
    }

    pub fn leaf(&self, r: &mut Rng, i: usize, o: usize, sr: f64) -> G {
        let v = &self.pool[&(i, o)];
        let mut e = r.pick(v);
        // Expensive units are sampled less.
        if e.flags & HEAVY != 0 && r.chance(0.8) {
            e = r.pick(v);
        }
        G { unit: e.build_raw(r, sr), desc: e.label() }
    }

    pub fn gen(&self, r: &mut Rng, depth: usize, i: usize, o: usize, sr: f64) -> G {
        if depth == 0 || r.chance(0.15) {
            return self.leaf(r, i, o, sr);
        }
        let d = depth - 1;
        macro_rules! g {
            ($i:expr, $o:expr) => {
                self.gen(r, d, $i, $o, sr)
            };
        }
        macro_rules! two {
            ($i:ty, $o:ty, $ii:expr, $oo:expr) => {{
                let a = g!($ii, $oo);
                let b = g!($ii, $oo);
                (unit::<$i, $o>(a.unit), unit::<$i, $o>(b.unit), a.desc, b.desc)
            }};
        }
        fn w<X: AudioNode + 'static>(x: An<X>, desc: String) -> G {
            G { unit: Box::new(x), desc }
        }
        match (i, o) {
            (0, 1) => match r.below(10) {
                0 | 1 => {
                    let a = g!(0, 1);
                    let b = g!(1, 1);
                    w(unit::<U0, U1>(a.unit) >> unit::<U1, U1>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                2 => {
                    let (a, b, da, db) = two!(U0, U1, 0, 1);
                    w(a + b, format!("({} + {})", da, db))
                }
                3 => {
                    let (a, b, da, db) = two!(U0, U1, 0, 1);
                    w(a * b, format!("({} * {})", da, db))
                }
                4 => {
                    let (a, b, da, db) = two!(U0, U1, 0, 1);
                    w(a & b, format!("({} & {})", da, db))
                }
                5 => {
                    let a = g!(0, 2);
                    let b = g!(2, 1);
                    w(unit::<U0, U2>(a.unit) >> unit::<U2, U1>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                6 => {
                    let a = g!(0, 1);
                    let k = r.f(0.5, 1.5);
                    w(dc(k) >> resample(unit::<U0, U1>(a.unit)), format!("resample({}, {})", k, a.desc))
                }
                7 => {
                    let a = g!(0, 1);
                    w(oversample(unit::<U0, U1>(a.unit)), format!("oversample({})", a.desc))
                }
                8 => {
                    let a = g!(0, 1);
                    let k = r.f(-1.0, 1.0);
                    w(unit::<U0, U1>(a.unit) * k - 0.25, format!("({} * {} - 0.25)", a.desc, k))
                }
                _ => {
                    let a = g!(0, 1);
                    self.wrapper(r, a, sr)
                }
            },
            (1, 1) => match r.below(20) {
                0 | 1 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a >> b, format!("({} >> {})", da, db))
                }
                2 => {
                    let a = g!(1, 2);
                    let b = g!(2, 1);
                    w(unit::<U1, U2>(a.unit) >> unit::<U2, U1>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                3 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a & b, format!("({} & {})", da, db))
                }
                4 => {
                    let a = g!(1, 1);
                    let b = g!(0, 1);
                    w(unit::<U1, U1>(a.unit) + unit::<U0, U1>(b.unit), format!("({} + {})", a.desc, b.desc))
                }
                5 => {
                    let a = g!(0, 1);
                    let b = g!(1, 1);
                    w(unit::<U0, U1>(a.unit) * unit::<U1, U1>(b.unit), format!("({} * {})", a.desc, b.desc))
                }
                6 => {
                    let a = g!(1, 1);
                    let b = g!(0, 1);
                    w(unit::<U1, U1>(a.unit) - unit::<U0, U1>(b.unit), format!("({} - {})", a.desc, b.desc))
                }
                7 => {
                    let a = g!(1, 1);
                    w(-unit::<U1, U1>(a.unit), format!("-({})", a.desc))
                }
                8 => {
                    let a = g!(1, 1);
                    let k = r.f(-1.0, 1.0);
                    w((unit::<U1, U1>(a.unit) * k + 0.1) - 0.05, format!("({} * {} + 0.1 - 0.05)", a.desc, k))
                }
                9 => {
                    let a = g!(1, 1);
                    w(
                        feedback(unit::<U1, U1>(a.unit) * 0.3 >> shape(Softsign(0.5))),
                        format!("feedback({} * 0.3 >> shape(Softsign(0.5)))", a.desc),
                    )
                }
                10 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(
                        feedback2(a >> shape(Softsign(0.5)), b * 0.3),
                        format!("feedback2({} >> shape(Softsign(0.5)), {} * 0.3)", da, db),
                    )
                }
                11 => {
                    let a = g!(1, 1);
                    let k = r.f(-0.5, 0.5);
                    w(
                        allnest_c(k, unit::<U1, U1>(a.unit) * 0.3 >> shape(Softsign(0.5))),
                        format!("allnest_c({}, {} * 0.3 >> shape(Softsign(0.5)))", k, a.desc),
                    )
                }
                12 => {
                    let a = g!(1, 1);
                    w(oversample(unit::<U1, U1>(a.unit)), format!("oversample({})", a.desc))
                }
                13 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w((a ^ b) >> join::<U2>(), format!("(({} ^ {}) >> join)", da, db))
                }
                14 => {
                    let v: Vec<G> = (0..3).map(|_| self.gen(r, d, 1, 1, sr)).collect();
                    let desc = v.iter().map(|g| g.desc.clone()).collect::<Vec<_>>().join(", ");
                    w(busi::<U3, _, _>(|i| unit::<U1, U1>(v[i as usize].unit.clone())), format!("busi[{}]", desc))
                }
                15 => {
                    let v: Vec<G> = (0..3).map(|_| self.gen(r, d, 1, 1, sr)).collect();
                    let desc = v.iter().map(|g| g.desc.clone()).collect::<Vec<_>>().join(", ");
                    w(pipei::<U3, _, _>(|i| unit::<U1, U1>(v[i as usize].unit.clone())), format!("pipei[{}]", desc))
                }
                16 => {
                    let v: Vec<G> = (0..2).map(|_| self.gen(r, d, 1, 1, sr)).collect();
                    let desc = v.iter().map(|g| g.desc.clone()).collect::<Vec<_>>().join(", ");
                    w(
                        branchi::<U2, _, _>(|i| unit::<U1, U1>(v[i as usize].unit.clone())) >> join::<U2>(),
                        format!("branchi[{}] >> join", desc),
                    )
                }
                17 => {
                    let a = g!(1, 1);
                    let dl = r.uni(0.0, 0.005);
                    let x: B = Box::new(unit::<U1, U1>(a.unit) * 0.3 >> shape(Softsign(0.5)));
                    G {
                        unit: Box::new(FeedbackUnit::new(dl, x)),
                        desc: format!("FeedbackUnit({}, {} * 0.3 >> shape(Softsign(0.5)))", dl, a.desc),
                    }
                }
                18 => {
                    let a = g!(1, 1);
                    self.wrapper(r, a, sr)
                }
                _ => {
                    // Dynamic operators.
                    let a = g!(1, 1);
                    let b = g!(1, 1);
                    let (na, nb) = (Net::wrap(a.unit), Net::wrap(b.unit));
                    let k = r.below(5);
                    let desc = format!("Net[op {}]({}, {})", k, a.desc, b.desc);
                    let n = match k {
                        0 => na >> nb,
                        1 => na & nb,
                        2 => (na ^ nb) >> Net::wrap(Box::new(join::<U2>())),
                        3 => (Net::wrap(Box::new(split::<U2>())) >> (na | nb)) >> Net::wrap(Box::new(pass() + pass())),
                        _ => Net::wrap(Box::new(split::<U2>())) >> (na + nb),
                    };
                    G { unit: Box::new(n), desc }
                }
            },
            (0, 2) => match r.below(5) {
                0 => {
                    let a = g!(0, 2);
                    let b = g!(2, 2);
                    w(unit::<U0, U2>(a.unit) >> unit::<U2, U2>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                1 => {
                    let a = g!(0, 1);
                    let b = g!(1, 2);
                    w(unit::<U0, U1>(a.unit) >> unit::<U1, U2>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                2 => {
                    let (a, b, da, db) = two!(U0, U2, 0, 2);
                    w(a + b, format!("({} + {})", da, db))
                }
                3 => {
                    let a = g!(0, 2);
                    self.wrapper(r, a, sr)
                }
                _ => {
                    let (a, b, da, db) = two!(U0, U1, 0, 1);
                    w(a | b, format!("({} | {})", da, db))
                }
            },
            (1, 2) => match r.below(5) {
                0 | 1 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a ^ b, format!("({} ^ {})", da, db))
                }
                2 => {
                    let a = g!(1, 1);
                    let b = g!(1, 2);
                    w(unit::<U1, U1>(a.unit) >> unit::<U1, U2>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                3 => {
                    let a = g!(1, 1);
                    let b = g!(0, 1);
                    w(unit::<U1, U1>(a.unit) | unit::<U0, U1>(b.unit), format!("({} | {})", a.desc, b.desc))
                }
                _ => {
                    let a = g!(1, 2);
                    self.wrapper(r, a, sr)
                }
            },
            (2, 1) => match r.below(6) {
                0 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a + b, format!("({} + {})", da, db))
                }
                1 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a * b, format!("({} * {})", da, db))
                }
                2 => {
                    let v: Vec<G> = (0..2).map(|_| self.gen(r, d, 1, 1, sr)).collect();
                    let desc = v.iter().map(|g| g.desc.clone()).collect::<Vec<_>>().join(", ");
                    w(sumi::<U2, _, _>(|i| unit::<U1, U1>(v[i as usize].unit.clone())), format!("sumi[{}]", desc))
                }
                3 => {
                    let a = g!(2, 2);
                    w(unit::<U2, U2>(a.unit) >> join::<U2>(), format!("({} >> join)", a.desc))
                }
                4 => {
                    let a = g!(2, 1);
                    let b = g!(1, 1);
                    w(unit::<U2, U1>(a.unit) >> unit::<U1, U1>(b.unit), format!("({} >> {})", a.desc, b.desc))
                }
                _ => {
                    let a = g!(1, 1);
                    w(unit::<U1, U1>(a.unit) | sink(), format!("({} | sink)", a.desc))
                }
            },
            (2, 2) => match r.below(9) {
                0 => {
                    let (a, b, da, db) = two!(U1, U1, 1, 1);
                    w(a | b, format!("({} | {})", da, db))
                }
                1 => {
                    let (a, b, da, db) = two!(U2, U2, 2, 2);
                    w(a >> b, format!("({} >> {})", da, db))
                }
                2 => {
                    let (a, b, da, db) = two!(U2, U2, 2, 2);
                    w(a & b, format!("({} & {})", da, db))
                }
                3 => {
                    let (a, b, da, db) = two!(U2, U1, 2, 1);
                    w(a ^ b, format!("({} ^ {})", da, db))
                }
                4 => {
                    let v: Vec<G> = (0..2).map(|_| self.gen(r, d, 1, 1, sr)).collect();
                    let desc = v.iter().map(|g| g.desc.clone()).collect::<Vec<_>>().join(", ");
                    w(stacki::<U2, _, _>(|i| unit::<U1, U1>(v[i as usize].unit.clone())), format!("stacki[{}]", desc))
                }
                5 => {
                    let a = g!(2, 1);
                    w(!unit::<U2, U1>(a.unit), format!("!({})", a.desc))
                }
                6 => {
                    let a = g!(2, 2);
                    w(
                        fdn::<U2, _>(unit::<U2, U2>(a.unit) * 0.3 >> (shape(Softsign(0.5)) | shape(Softsign(0.5)))),
                        format!("fdn({} * 0.3 >> softsign)", a.desc),
                    )
                }
                7 => {
                    let a = g!(2, 2);
                    let b = g!(0, 2);
                    w(unit::<U2, U2>(a.unit) * unit::<U0, U2>(b.unit), format!("({} * {})", a.desc, b.desc))
                }
                _ => {
                    let a = g!(2, 2);
                    self.wrapper(r, a, sr)
                }
            },
            _ => self.leaf(r, i, o, sr),
        }
    }

    /// Wrap in a dynamic container without changing the stream.
    fn wrapper(&self, r: &mut Rng, a: G, _sr: f64) -> G {
        let n = if self.plain { 2 } else { 5 };
        match r.below(n) {
            0 => G { unit: Box::new(Net::wrap(a.unit)), desc: format!("Net::wrap({})", a.desc) },
            1 => G { unit: Box::new(BigBlockAdapter::new(a.unit)), desc: format!("BigBlock({})", a.desc) },
            2 => {
                let mut n = Net::wrap(a.unit);
                G { unit: Box::new(n.backend()), desc: format!("Net::wrap({}).backend()", a.desc) }
            }
            3 => G { unit: Box::new(Slot::new(a.unit).1), desc: format!("Slot({})", a.desc) },
            _ => {
                if a.unit.inputs() > 0 {
                    return G { unit: Box::new(Net::wrap(a.unit)), desc: format!("Net::wrap({})", a.desc) };
                }
                let o = a.unit.outputs();
                let mut s = Sequencer::new(true, o);
                s.push(0.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, a.unit);
                G { unit: Box::new(s), desc: format!("Sequencer({})", a.desc) }
            }
        }
    }
}

