//! P05: operators implement their documented algebra.
use fundsp::hacker32::*;
use fundsp::typenum::Unsigned;
use vh::tnode::*;
use vh::{compare, nontrivial, partition, render, stimuli, Chans, Ctx, Kind, Rec, Rng};

type Case = (String, Box<dyn AudioUnit>, Ref, usize, usize);

fn c2(s: (u64, u64)) -> (u64, u64) {
    s
}

macro_rules! bin_cases {
    ($v:ident, $s:ident, $( ($i:ty, $m:ty, $o:ty) ),*) => { $(
        {
            type I = $i; type M = $m; type O = $o;
            let (i, m, o) = (<I as Unsigned>::USIZE, <M as Unsigned>::USIZE, <O as Unsigned>::USIZE);
            let (a, b) = c2(($s, $s ^ 77));
            $v.push(mk(format!("pipe {i},{m},{o}"), t::<I, M>(a) >> t::<M, O>(b), r_pipe(tr(a, i, m), tr(b, m, o)), i, o));
            $v.push(mk(format!("pipe() {i},{m},{o}"), pipe(t::<I, M>(a), t::<M, O>(b)), r_pipe(tr(a, i, m), tr(b, m, o)), i, o));
            $v.push(mk(format!("stack {i},{m}|{m},{o}"), t::<I, M>(a) | t::<M, O>(b), r_stack(i, tr(a, i, m), tr(b, m, o)), i + m, m + o));
            $v.push(mk(format!("stack() {i},{m}|{m},{o}"), stack(t::<I, M>(a), t::<M, O>(b)), r_stack(i, tr(a, i, m), tr(b, m, o)), i + m, m + o));
            $v.push(mk(format!("branch {i},{m}^{i},{o}"), t::<I, M>(a) ^ t::<I, O>(b), r_branch(tr(a, i, m), tr(b, i, o)), i, m + o));
            $v.push(mk(format!("branch() {i},{m}^{i},{o}"), branch(t::<I, M>(a), t::<I, O>(b)), r_branch(tr(a, i, m), tr(b, i, o)), i, m + o));
            $v.push(mk(format!("bus {i},{o}"), t::<I, O>(a) & t::<I, O>(b), r_bus(tr(a, i, o), tr(b, i, o)), i, o));
            $v.push(mk(format!("bus() {i},{o}"), bus(t::<I, O>(a), t::<I, O>(b)), r_bus(tr(a, i, o), tr(b, i, o)), i, o));
            $v.push(mk(format!("sum {i},{o}+{m},{o}"), t::<I, O>(a) + t::<M, O>(b), r_bin(i, tr(a, i, o), tr(b, m, o), |x, y| x + y), i + m, o));
            $v.push(mk(format!("sum() {i},{o}+{m},{o}"), sum(t::<I, O>(a), t::<M, O>(b)), r_bin(i, tr(a, i, o), tr(b, m, o), |x, y| x + y), i + m, o));
            $v.push(mk(format!("sub {i},{o}-{m},{o}"), t::<I, O>(a) - t::<M, O>(b), r_bin(i, tr(a, i, o), tr(b, m, o), |x, y| x - y), i + m, o));
            $v.push(mk(format!("mul {i},{o}*{m},{o}"), t::<I, O>(a) * t::<M, O>(b), r_bin(i, tr(a, i, o), tr(b, m, o), |x, y| x * y), i + m, o));
            $v.push(mk(format!("product() {i},{o}*{m},{o}"), product(t::<I, O>(a), t::<M, O>(b)), r_bin(i, tr(a, i, o), tr(b, m, o), |x, y| x * y), i + m, o));
        }
    )* }
}

macro_rules! un_cases {
    ($v:ident, $s:ident, $c:ident, $( ($i:ty, $o:ty) ),*) => { $(
        {
            type I = $i; type O = $o;
            let (i, o) = (<I as Unsigned>::USIZE, <O as Unsigned>::USIZE);
            let a = $s; let c: f32 = $c;
            $v.push(mk(format!("-x {i},{o}"), -t::<I, O>(a), r_map(tr(a, i, o), |x| -x), i, o));
            $v.push(mk(format!("!x {i},{o}"), !t::<I, O>(a), r_thru(i, tr(a, i, o)), i, i));
            $v.push(mk(format!("thru() {i},{o}"), thru(t::<I, O>(a)), r_thru(i, tr(a, i, o)), i, i));
            $v.push(mk(format!("x+c {i},{o}"), t::<I, O>(a) + c, r_map(tr(a, i, o), move |x| x + c), i, o));
            $v.push(mk(format!("c+x {i},{o}"), c + t::<I, O>(a), r_map(tr(a, i, o), move |x| c + x), i, o));
            $v.push(mk(format!("x-c {i},{o}"), t::<I, O>(a) - c, r_map(tr(a, i, o), move |x| x - c), i, o));
            $v.push(mk(format!("c-x {i},{o}"), c - t::<I, O>(a), r_map(tr(a, i, o), move |x| c - x), i, o));
            $v.push(mk(format!("x*c {i},{o}"), t::<I, O>(a) * c, r_map(tr(a, i, o), move |x| x * c), i, o));
            $v.push(mk(format!("c*x {i},{o}"), c * t::<I, O>(a), r_map(tr(a, i, o), move |x| c * x), i, o));
            $v.push(mk(format!("unit {i},{o}"), unit::<I, O>(Box::new(t::<I, O>(a))), tr(a, i, o), i, o));
        }
    )* }
}

macro_rules! multi_cases {
    ($v:ident, $s:ident, $( ($n:ty, $i:ty, $o:ty) ),*) => { $(
        {
            type N = $n; type I = $i; type O = $o;
            let (n, i, o) = (<N as Unsigned>::USIZE, <I as Unsigned>::USIZE, <O as Unsigned>::USIZE);
            let s = $s;
            let g = move |k: u64| t::<I, O>(s ^ (k * 31 + 5));
            // The fraction determines the seed.
            let fr = move |x: f32| t::<I, O>(s ^ ((x * 8192.0).round() as u64 * 3 + 1));
            let sd = move |k: usize| s ^ (k as u64 * 31 + 5);
            let sf = move |k: usize| s ^ (((if n > 1 { k as f32 / (n - 1) as f32 } else { 0.5 }) * 8192.0).round() as u64 * 3 + 1);
            for frac in [false, true] {
                let seeds: Vec<u64> = (0..n).map(|k| if frac { sf(k) } else { sd(k) }).collect();
                let refs = || -> Vec<Ref> { seeds.iter().map(|q| tr(*q, i, o)).collect() };
                let nm = if frac { "f" } else { "i" };
                let mut rs = refs();
                let f: Ref = Box::new(move |x| { let mut out = vec![]; for (k, r) in rs.iter_mut().enumerate() { out.extend(r(&x[k * i..k * i + i])); } out });
                if frac { $v.push(mk(format!("stack{nm} {n}x{i},{o}"), stackf::<N, _, _>(fr), f, n * i, n * o)); }
                else { $v.push(mk(format!("stack{nm} {n}x{i},{o}"), stacki::<N, _, _>(g), f, n * i, n * o)); }
                let mut rs = refs();
                let f: Ref = Box::new(move |x| { let mut out = vec![]; for r in rs.iter_mut() { out.extend(r(x)); } out });
                if frac { $v.push(mk(format!("branch{nm} {n}x{i},{o}"), branchf::<N, _, _>(fr), f, i, n * o)); }
                else { $v.push(mk(format!("branch{nm} {n}x{i},{o}"), branchi::<N, _, _>(g), f, i, n * o)); }
                let mut rs = refs();
                let f: Ref = Box::new(move |x| { let mut out = vec![0.0; o]; for r in rs.iter_mut() { for (p, q) in out.iter_mut().zip(r(x)) { *p += q; } } out });
                if frac { $v.push(mk(format!("bus{nm} {n}x{i},{o}"), busf::<N, _, _>(fr), f, i, o)); }
                else { $v.push(mk(format!("bus{nm} {n}x{i},{o}"), busi::<N, _, _>(g), f, i, o)); }
                let mut rs = refs();
                let f: Ref = Box::new(move |x| { let mut out = vec![0.0; o]; for (k, r) in rs.iter_mut().enumerate() { for (p, q) in out.iter_mut().zip(r(&x[k * i..k * i + i])) { *p += q; } } out });
                if frac { $v.push(mk(format!("sum{nm} {n}x{i},{o}"), sumf::<N, _, _>(fr), f, n * i, o)); }
                else { $v.push(mk(format!("sum{nm} {n}x{i},{o}"), sumi::<N, _, _>(g), f, n * i, o)); }
            }
        }
    )* }
}

macro_rules! chain_cases {
    ($v:ident, $s:ident, $( ($n:ty, $i:ty) ),*) => { $(
        {
            type N = $n; type I = $i;
            let (n, i) = (<N as Unsigned>::USIZE, <I as Unsigned>::USIZE);
            let s = $s;
            let mut rs: Vec<Ref> = (0..n).map(|k| tr(s ^ (k as u64 * 31 + 5), i, i)).collect();
            let f: Ref = Box::new(move |x| { let mut y = x.to_vec(); for r in rs.iter_mut() { y = r(&y); } y });
            $v.push(mk(format!("pipei {n}x{i}"), pipei::<N, _, _>(move |k| t::<I, I>(s ^ (k * 31 + 5))), f, i, i));
            let mut rs: Vec<Ref> = (0..n).map(|k| tr(s ^ (((if n > 1 { k as f32 / (n - 1) as f32 } else { 0.5 }) * 8192.0).round() as u64 * 3 + 1), i, i)).collect();
            let f: Ref = Box::new(move |x| { let mut y = x.to_vec(); for r in rs.iter_mut() { y = r(&y); } y });
            $v.push(mk(format!("pipef {n}x{i}"), pipef::<N, _, _>(move |x: f32| t::<I, I>(s ^ ((x * 8192.0).round() as u64 * 3 + 1))), f, i, i));
            // Feedback: single sample loop around the node, output summed to input.
            let mut inner = TRef::new(s, i, i);
            let mut fb = vec![0.0f32; i];
            let f: Ref = Box::new(move |x| { let y: Vec<f32> = x.iter().zip(&fb).map(|(a, b)| a + b).collect(); let o = inner.tick(&y); fb = o.clone(); o });
            $v.push(mk(format!("feedback {i}"), feedback(t::<I, I>(s)), f, i, i));
            let mut inner = TRef::new(s, i, i);
            let mut inner2 = TRef::new(s ^ 99, i, i);
            let mut fb = vec![0.0f32; i];
            let f: Ref = Box::new(move |x| { let y: Vec<f32> = x.iter().zip(&fb).map(|(a, b)| a + b).collect(); let o = inner.tick(&y); fb = inner2.tick(&o); o });
            $v.push(mk(format!("feedback2 {i}"), feedback2(t::<I, I>(s), t::<I, I>(s ^ 99) ), f, i, i));
        }
    )* }
}

macro_rules! shape_cases {
    ($v:ident, $s:ident, $r:ident, $( $n:ty ),*) => { $(
        {
            type N = $n;
            let n = <N as Unsigned>::USIZE;
            $v.push(mk(format!("multipass {n}"), multipass::<N>(), r_fn(|x| x.to_vec()), n, n));
            $v.push(mk(format!("multisink {n}"), multisink::<N>() | zero(), r_fn(|_| vec![0.0]), n, 1));
            $v.push(mk(format!("multizero {n}"), multizero::<N>(), r_fn(move |_| vec![0.0; n]), 0, n));
            $v.push(mk(format!("reverse {n}"), reverse::<N>(), r_fn(|x| x.iter().rev().copied().collect()), n, n));
            $v.push(mk(format!("split {n}"), split::<N>(), r_fn(move |x| vec![x[0]; n]), 1, n));
            $v.push(mk(format!("join {n}"), join::<N>(), r_fn(move |x| vec![x.iter().sum::<f32>() / n as f32]), n, 1));
            $v.push(mk(format!("multisplit 2x{n}"), multisplit::<U2, N>(), r_fn(move |x| (0..2 * n).map(|k| x[k % 2]).collect()), 2, 2 * n));
            $v.push(mk(format!("multisplit 3x{n}"), multisplit::<U3, N>(), r_fn(move |x| (0..3 * n).map(|k| x[k % 3]).collect()), 3, 3 * n));
            $v.push(mk(format!("multijoin 2x{n}"), multijoin::<U2, N>(), r_fn(move |x| (0..2).map(|k| (0..n).map(|j| x[j * 2 + k]).sum::<f32>() / n as f32).collect()), 2 * n, 2));
            $v.push(mk(format!("multijoin 3x{n}"), multijoin::<U3, N>(), r_fn(move |x| (0..3).map(|k| (0..n).map(|j| x[j * 3 + k]).sum::<f32>() / n as f32).collect()), 3 * n, 3));
            let mut st = vec![0.0; n];
            let f: Ref = Box::new(move |x| std::mem::replace(&mut st, x.to_vec()));
            $v.push(mk(format!("multitick {n}"), multitick::<N>(), f, n, n));
            let mut first = true;
            let f: Ref = Box::new(move |_| { let y = vec![if first { 1.0 } else { 0.0 }; n]; first = false; y });
            $v.push(mk(format!("impulse {n}"), impulse::<N>(), f, 0, n));
        }
    )* }
}

fn mk<X: AudioNode + 'static>(name: String, x: An<X>, f: Ref, i: usize, o: usize) -> Case {
    (name, Box::new(x), f, i, o)
}

fn cases(r: &mut Rng) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let s = r.u64() >> 8;
    let c = r.f(-2.0, 2.0);
    bin_cases!(v, s, (U0, U1, U1), (U1, U1, U1), (U1, U2, U1), (U2, U1, U2), (U2, U2, U2), (U0, U2, U3), (U3, U1, U2), (U1, U3, U3), (U2, U0, U1), (U1, U1, U0), (U3, U3, U3), (U5, U4, U1), (U0, U0, U1), (U1, U9, U2), (U9, U9, U9), (U2, U10, U12));
    un_cases!(v, s, c, (U0, U1), (U1, U1), (U2, U1), (U1, U2), (U3, U2), (U2, U3), (U3, U3), (U0, U3), (U4, U1), (U5, U5), (U3, U0), (U10, U9), (U9, U12));
    multi_cases!(v, s, (U1, U1, U1), (U2, U1, U1), (U3, U1, U2), (U4, U2, U1), (U3, U2, U2), (U5, U0, U1), (U2, U0, U3), (U9, U1, U1), (U3, U3, U3), (U16, U1, U1), (U20, U1, U2));
    chain_cases!(v, s, (U1, U1), (U2, U2), (U3, U1), (U5, U2), (U4, U3), (U9, U1), (U20, U1), (U2, U10));
    shape_cases!(v, s, r, U1, U2, U3, U4, U5, U8, U9, U16, U20);
    let (a, b, d) = (r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0));
    v.push(mk(
        "reduce sub".into(),
        An(Reduce::<U3, _, _>::new(Frame::generate(|i| t::<U2, U2>(s + i as u64).0), FrameSub::new())),
        r_bin(4, r_bin(2, tr(s, 2, 2), tr(s + 1, 2, 2), |x, y| x - y), tr(s + 2, 2, 2), |x, y| x - y),
        6,
        2,
    ));
    v.push(mk(
        "reduce mul".into(),
        An(Reduce::<U2, _, _>::new(Frame::generate(|i| t::<U1, U3>(s + i as u64).0), FrameMul::new())),
        r_bin(1, tr(s, 1, 3), tr(s + 1, 1, 3), |x, y| x * y),
        2,
        3,
    ));
    v.push(mk("pass".into(), pass(), r_fn(|x| x.to_vec()), 1, 1));
    v.push(mk("sink".into(), sink() | zero(), r_fn(|_| vec![0.0]), 1, 1));
    v.push(mk("dc1".into(), dc(a), r_fn(move |_| vec![a]), 0, 1));
    v.push(mk("dc3".into(), dc((a, b, d)), r_fn(move |_| vec![a, b, d]), 0, 3));
    v.push(mk("constant2".into(), constant((a, b)), r_fn(move |_| vec![a, b]), 0, 2));
    v.push(mk("add3".into(), add((a, b, d)), r_fn(move |x| vec![x[0] + a, x[1] + b, x[2] + d]), 3, 3));
    v.push(mk("sub3".into(), sub((a, b, d)), r_fn(move |x| vec![x[0] - a, x[1] - b, x[2] - d]), 3, 3));
    v.push(mk("mul3".into(), mul((a, b, d)), r_fn(move |x| vec![x[0] * a, x[1] * b, x[2] * d]), 3, 3));
    v.push(mk("add1".into(), add(a), r_fn(move |x| vec![x[0] + a]), 1, 1));
    v.push(mk("sub1".into(), sub(a), r_fn(move |x| vec![x[0] - a]), 1, 1));
    v.push(mk("mul1".into(), mul(a), r_fn(move |x| vec![x[0] * a]), 1, 1));
    v.push(mk("map2to3".into(), map(move |x: &Frame<f32, U2>| (x[0] + a, x[0] * x[1], x[1] - b)), r_fn(move |x| vec![x[0] + a, x[0] * x[1], x[1] - b]), 2, 3));
    v.push(mk("map1to1".into(), map(move |x: &Frame<f32, U1>| x[0] * x[0] - d), r_fn(move |x| vec![x[0] * x[0] - d]), 1, 1));
    let mut st = 0.0;
    let f: Ref = Box::new(move |x| vec![std::mem::replace(&mut st, x[0])]);
    v.push(mk("tick".into(), tick(), f, 1, 1));
    // Precedence and associativity as documented: ! and - bind first, then *, + -, >>, &, ^, |.
    let q = s;
    v.push(mk(
        "precedence".into(),
        t::<U1, U1>(q) >> t::<U1, U1>(q + 1) * 2.0 + 1.0 & t::<U1, U1>(q + 2) ^ t::<U1, U1>(q + 3) | -t::<U1, U1>(q + 4),
        r_stack(
            1,
            r_branch(r_bus(r_pipe(tr(q, 1, 1), r_map(tr(q + 1, 1, 1), |x| x * 2.0 + 1.0)), tr(q + 2, 1, 1)), tr(q + 3, 1, 1)),
            r_map(tr(q + 4, 1, 1), |x| -x),
        ),
        2,
        3,
    ));
    v
}

/// Random expression tree over dynamic units with its reference.
fn tree(r: &mut Rng, d: usize, i: usize, o: usize, desc: &mut String) -> (Box<dyn AudioUnit>, Ref) {
    macro_rules! u {
        ($i:ty, $o:ty, $d:expr) => {{
            let (a, f) = tree(r, $d, <$i as Unsigned>::USIZE, <$o as Unsigned>::USIZE, desc);
            (unit::<$i, $o>(a), f)
        }};
    }
    if d == 0 {
        let s = r.u64() >> 8;
        *desc += &format!("t{}{}", i, o);
        return match (i, o) {
            (0, 1) => (Box::new(t::<U0, U1>(s)), tr(s, 0, 1)),
            (1, 1) => (Box::new(t::<U1, U1>(s)), tr(s, 1, 1)),
            (1, 2) => (Box::new(t::<U1, U2>(s)), tr(s, 1, 2)),
            (2, 1) => (Box::new(t::<U2, U1>(s)), tr(s, 2, 1)),
            _ => (Box::new(t::<U2, U2>(s)), tr(s, 2, 2)),
        };
    }
    let e = d - 1;
    let k = r.below(10);
    *desc += "(";
    macro_rules! same {
        ($i:ty, $o:ty) => {{
            let (ii, oo) = (<$i as Unsigned>::USIZE, <$o as Unsigned>::USIZE);
            match k {
                0 => { let (a, f) = u!($i, U1, e); *desc += ">>"; let (b, g) = u!(U1, $o, e); (Box::new(a >> b) as Box<dyn AudioUnit>, r_pipe(f, g)) }
                1 => { let (a, f) = u!($i, U2, e); *desc += ">>"; let (b, g) = u!(U2, $o, e); (Box::new(a >> b) as Box<dyn AudioUnit>, r_pipe(f, g)) }
                2 => { let (a, f) = u!($i, $o, e); *desc += "&"; let (b, g) = u!($i, $o, e); (Box::new(a & b) as Box<dyn AudioUnit>, r_bus(f, g)) }
                3 => { let (a, f) = u!($i, $o, e); *desc += "-"; let (b, g) = u!(U0, U1, e); let _ = (&b, ii); if oo == 1 { (Box::new(a * 0.5 - 0.25), r_map(f, |x| x * 0.5 - 0.25)) } else { drop(g); (Box::new(-a + 0.125), r_map(f, |x| -x + 0.125)) } }
                4 => { let (a, f) = u!($i, $o, e); *desc += "neg"; (Box::new(-a) as Box<dyn AudioUnit>, r_map(f, |x| -x)) }
                5 => { let (a, f) = u!($i, $o, e); *desc += "*c"; (Box::new(a * 0.7) as Box<dyn AudioUnit>, r_map(f, |x| x * 0.7)) }
                6 => { let (a, f) = u!($i, $o, e); *desc += "Net"; (Box::new(Net::wrap(Box::new(a))) as Box<dyn AudioUnit>, f) }
                7 => { let (a, f) = u!($i, $o, e); *desc += "busi"; let (b, g) = u!($i, $o, e); let v = [a, b]; (Box::new(busi::<U2, _, _>(move |k| v[k as usize].clone())) as Box<dyn AudioUnit>, r_bus(f, g)) }
                8 => { let (a, f) = u!($i, $o, e); *desc += "c-"; (Box::new(0.3 - a) as Box<dyn AudioUnit>, r_map(f, |x| 0.3 - x)) }
                _ => { let (a, f) = u!($i, $o, e); *desc += "net&"; let (b, g) = u!($i, $o, e); (Box::new(Net::wrap(Box::new(a)) & Net::wrap(Box::new(b))) as Box<dyn AudioUnit>, r_bus(f, g)) }
            }
        }};
    }
    let x: (Box<dyn AudioUnit>, Ref) = match (i, o, r.chance(0.45)) {
        (2, 1, true) => { let (a, f) = u!(U1, U1, e); *desc += "±"; let (b, g) = u!(U1, U1, e); match k % 3 { 0 => (Box::new(a + b), r_bin(1, f, g, |x, y| x + y)), 1 => (Box::new(a - b), r_bin(1, f, g, |x, y| x - y)), _ => (Box::new(a * b), r_bin(1, f, g, |x, y| x * y)) } }
        (2, 2, true) => match k % 3 {
            0 => { let (a, f) = u!(U1, U1, e); *desc += "|"; let (b, g) = u!(U1, U1, e); (Box::new(a | b), r_stack(1, f, g)) }
            1 => { let (a, f) = u!(U2, U1, e); *desc += "!"; (Box::new(!a), r_thru(2, f)) }
            _ => { let (a, f) = u!(U2, U1, e); *desc += "^"; let (b, g) = u!(U2, U1, e); (Box::new(a ^ b), r_branch(f, g)) }
        },
        (1, 2, true) => { let (a, f) = u!(U1, U1, e); *desc += "^"; let (b, g) = u!(U1, U1, e); (Box::new(a ^ b), r_branch(f, g)) }
        (1, 1, true) => { let (a, f) = u!(U1, U1, e); *desc += "+g"; let (b, g) = u!(U0, U1, e); match k % 3 { 0 => (Box::new(a + b), r_bin(1, f, g, |x, y| x + y)), 1 => (Box::new(a - b), r_bin(1, f, g, |x, y| x - y)), _ => (Box::new(a * b), r_bin(1, f, g, |x, y| x * y)) } }
        (0, 1, _) => { let (a, f) = u!(U0, U1, e); *desc += ">>"; let (b, g) = u!(U1, U1, e); (Box::new(a >> b), r_pipe(f, g)) }
        (1, 1, _) => same!(U1, U1),
        (1, 2, _) => same!(U1, U2),
        (2, 1, _) => same!(U2, U1),
        _ => same!(U2, U2),
    };
    *desc += ")";
    x
}

fn check(rec: &mut Rec, r: &mut Rng, name: &str, mut u: Box<dyn AudioUnit>, mut f: Ref, i: usize, o: usize, n: usize) -> Result<(), String> {
    if u.inputs() != i || u.outputs() != o {
        return Err(format!("{}: arity {}->{} instead of {}->{}", name, u.inputs(), u.outputs(), i, o));
    }
    if r.chance(0.3) {
        u.set_sample_rate(vh::rate(r));
    }
    let x = stimuli(r, &vec![Kind::A; i], n);
    let p = partition(r, n);
    rec.ctx = format!("{} partition {:?}", name, &p[..Ord::min(p.len(), 12)]);
    let got = render(u.as_mut(), &x, &p);
    let mut want: Chans = vec![Vec::with_capacity(n); o];
    for k in 0..n {
        let xi: Vec<f32> = x.iter().map(|c| c[k]).collect();
        for (c, y) in want.iter_mut().zip(f(&xi)) {
            c.push(y);
        }
    }
    rec.count("samples_compared", (n * o) as u64);
    if nontrivial(&want) {
        rec.distinct(&format!("{}{}", name, rec.rng.0));
    }
    compare(&want, &got, 1e-4, 1e-4).map_err(|e| format!("{}: {} (reference vs rendered)", name, e))?;
    rec.sample = Some(rec.ctx.clone());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P05",
        "compose arity-generic stateful test nodes with every operator form and compare with an independent sample-by-sample reference; render the same opcode from hacker and hacker32 and compare; nontrivial = nonzero reference output",
    );
    let n_cases = cases(&mut Rng::new(1)).len();
    ctx.add_count("operator_forms", n_cases as u64);
    let reps = ctx.scale(160, 3000);
    ctx.par("operator", reps, |_i, rec| {
        let mut r = rec.rng.clone();
        for (name, u, f, i, o) in cases(&mut r) {
            let n = r.usize(1, 200);
            check(rec, &mut r, &name, u, f, i, o, n)?;
        }
        Ok(())
    });
    let n = ctx.scale(80000, 1500000);
    ctx.par("tree", n, |_i, rec| {
        let mut r = rec.rng.clone();
        let (i, o) = *r.pick(&[(0, 1), (1, 1), (1, 2), (2, 1), (2, 2)]);
        let d = r.usize(1, 4);
        let mut desc = String::new();
        let (u, f) = tree(&mut r, d, i, o, &mut desc);
        rec.ctx = desc.clone();
        let n = r.usize(1, 200);
        check(rec, &mut r, &desc, u, f, i, o, n)
    });
    env(&mut ctx);
    ctx.finish()
}

/// Same expression in hacker (f64) and hacker32 (f32).
fn env(ctx: &mut Ctx) {
    env_pair(ctx, "environment", vh::catalog::hacker(), vh::catalog::hacker32(), 0.02);
    env_pair(ctx, "environment_prelude", vh::catalog::hacker(), pre::prelude(), 1e-5);
}

#[path = "../pshim.rs"]
mod pshim;

/// The generic environment.
mod pre {
    use vh::catalog::*;
    use vh::Kind::*;
    use vh::{Kind, Rng};
    vh::catalog!(prelude, prelude, f64, crate::pshim);
}

fn env_pair(ctx: &mut Ctx, stream: &str, a: Vec<vh::catalog::Entry>, b: Vec<vh::catalog::Entry>, tol: f64) {
    use vh::catalog::*;
    let pairs: Vec<(&Entry, &Entry)> = a
        .iter()
        .filter(|e| e.flags & SHARED == 0 && (stream != "environment" || e.flags & (CHAOTIC | DRIFT) == 0))
        .filter_map(|e| b.iter().find(|f| f.name == e.name).map(|f| (e, f)))
        .collect();
    ctx.add_count(&format!("{}_pairs", stream), pairs.len() as u64);
    let reps = ctx.scale(120, 2000);
    let ps = &pairs;
    ctx.par(stream, pairs.len() * reps, |i, rec| {
        let (e, g) = ps[i % ps.len()];
        let mut r = rec.rng.clone();
        let sr = 44100.0;
        let r0 = r.fork();
        let mut u = e.build(&mut r0.clone(), sr);
        let mut v = g.build(&mut r0.clone(), sr);
        let n = r.usize(20, 300);
        let x = e.stim(&mut r, n, sr);
        rec.ctx = format!("{} in hacker vs hacker32", e.name);
        if u.inputs() != v.inputs() || u.outputs() != v.outputs() {
            return Err(format!("{}: arity differs", e.name));
        }
        let p = vh::ticks(n);
        let a = render(u.as_mut(), &x, &p);
        let b = render(v.as_mut(), &x, &p);
        // Direct form filters are ill conditioned while their parameters change.
        let tol = if ["resonator", "butterpass"].contains(&e.name) { 8.0 * tol } else { tol };
        let amp = a.iter().flatten().fold(0.0f32, |m, x| m.max(x.abs()));
        if !(amp < 1.0e4) {
            rec.count("skipped_unbounded", 1);
            return Ok(());
        }
        if nontrivial(&a) {
            rec.distinct(&format!("{}{}", e.name, rec.rng.0));
        }
        if stream == "environment" {
            // A discontinuity may fall on neighbouring samples in the two precisions.
            let t = tol * (1.0 + amp as f64);
            let bad = a.iter().flatten().zip(b.iter().flatten()).filter(|(x, y)| !(((**x - **y).abs() as f64) <= t)).count();
            if a.len() == b.len() && bad <= 3 + n * a.len() / 50 {
                return Ok(());
            }
        }
        compare(&a, &b, tol * (1.0 + amp as f64), tol).map_err(|x| format!("{}: {} ({} vs {})", e.name, x, e.env, g.env))?;
        Ok(())
    });
}
