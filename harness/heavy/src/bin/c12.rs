//! C12: reported latency equals the causal delay of the signal path.
use fundsp::hacker as h;
use fundsp::hacker::*;
use vfcore::kind::{Kind, LeafSpec};
use vfcore::render::*;
use vfcore::*;
use vfgraph::G;
use vfnodes as nodes;

type Un = Box<dyn AudioUnit>;
const BASE: usize = 100000;

/// Leaves with a known dependency structure: `(name, inputs, outputs)`.
const LEAVES: &[(&str, usize, usize)] = &[
    ("pass", 1, 1), ("multipass2", 2, 2), ("reverse3", 3, 3), ("split2", 1, 2), ("split3", 1, 3), ("join2", 2, 1), ("join3", 3, 1),
    ("limiter", 1, 1), ("limiter_stereo", 2, 2), ("limiter3", 3, 3), ("limiter", 1, 1), ("limiter_stereo", 2, 2),
    ("resynth11", 1, 1), ("resynth21", 2, 1), ("resynth12", 1, 2), ("resynth22", 2, 2), ("resynth32", 3, 2),
    ("over_limiter", 1, 1), ("sink1", 1, 0), ("sink2", 2, 0), ("noise", 0, 1), ("constant1", 0, 1), ("constant2", 0, 2), ("zero", 0, 3),
    ("tanh", 1, 1), ("map2", 2, 1), ("lowpole", 1, 1), ("delay", 1, 1), ("tick", 1, 1), ("net_limiter", 1, 1), ("slot_limiter", 1, 1), ("sine", 1, 1), ("lowpass3", 3, 1),
    ("stacki_limiter", 2, 2), ("sumi_limiter", 2, 1), ("busi_limiter", 1, 1), ("branchi_limiter", 1, 3), ("pipei_limiter", 1, 1), ("branch_resynth", 2, 2), ("rotate", 2, 2), ("declick", 1, 1), ("monitor", 1, 1), ("wave", 0, 1),
];

fn attack(p: &[f64], i: usize) -> f32 { (0.0002 * 10.0f64.powf(1.2 * ((p[0] + i as f64 * 0.13) % 1.0))) as f32 }
fn window(p: &[f64]) -> usize { 4 << h::min((p[0] * 5.0) as usize, 4) }

fn build_leaf(s: &LeafSpec) -> (Vec<Kind>, Un) {
    if s.kind < BASE {
        let l = nodes::build(s);
        return (l.ins, l.unit);
    }
    let (a, w) = (attack(&s.p, 0), window(&s.p));
    let r = 0.001;
    fn ident(w: &mut FftWindow) {
        for c in 0..w.outputs() { for i in 0..w.bins() { let mut z = w.at(0, i); for k in 1..w.inputs() { z += w.at(k, i); } w.set(c, i, z); } }
    }
    let p = s.p.clone();
    let u: Un = match s.name {
        "pass" => Box::new(h::pass()), "multipass2" => Box::new(h::multipass::<U2>()), "reverse3" => Box::new(h::reverse::<U3>()),
        "split2" => Box::new(h::split::<U2>()), "split3" => Box::new(h::split::<U3>()), "join2" => Box::new(h::join::<U2>()), "join3" => Box::new(h::join::<U3>()),
        "limiter" => Box::new(h::limiter(a, r)), "limiter_stereo" => Box::new(h::limiter_stereo(a, r)),
        "limiter3" => Box::new(An(h::Limiter::<U3>::new(44100.0, a, r))),
        "resynth11" => Box::new(h::resynth::<U1, U1, _>(w, ident)), "resynth21" => Box::new(h::resynth::<U2, U1, _>(w, ident)),
        "resynth12" => Box::new(h::resynth::<U1, U2, _>(w, ident)), "resynth22" => Box::new(h::resynth::<U2, U2, _>(w, ident)), "resynth32" => Box::new(h::resynth::<U3, U2, _>(w, ident)),
        "over_limiter" => Box::new(h::oversample(h::limiter(a, r))),
        "sink1" => Box::new(h::sink()), "sink2" => Box::new(h::multisink::<U2>()), "noise" => Box::new(h::noise()),
        "constant1" => Box::new(h::dc(0.5)), "constant2" => Box::new(h::dc((0.5, 0.25))), "zero" => Box::new(h::multizero::<U3>()),
        "tanh" => Box::new(h::shape(h::Tanh(1.0))), "map2" => Box::new(h::map(|i: &Frame<f32, U2>| i[0] * 0.5 + i[1])),
        "lowpole" => Box::new(h::lowpole_hz(1000.0)), "delay" => Box::new(h::delay(0.0005)), "tick" => Box::new(h::tick()),
        "net_limiter" => Box::new(Net::wrap(Box::new(h::limiter(a, r)))), "slot_limiter" => Box::new(Slot::new(Box::new(h::limiter(a, r))).1),
        "sine" => Box::new(h::sine()), "lowpass3" => Box::new(h::lowpass()),
        "stacki_limiter" => Box::new(h::stacki::<U2, _, _>(|i| h::limiter(attack(&p, i as usize), r))),
        "sumi_limiter" => Box::new(h::sumi::<U2, _, _>(|i| h::limiter(attack(&p, i as usize), r))),
        "busi_limiter" => Box::new(h::busi::<U3, _, _>(|i| h::limiter(attack(&p, i as usize), r))),
        "branchi_limiter" => Box::new(h::branchi::<U3, _, _>(|i| h::limiter(attack(&p, i as usize), r))),
        "pipei_limiter" => Box::new(h::pipei::<U3, _, _>(|i| h::limiter(attack(&p, i as usize), r))),
        "branch_resynth" => Box::new(h::branchi::<U2, _, _>(|_i| h::resynth::<U2, U1, _>(w, ident))),
        "rotate" => Box::new(h::rotate(1.0, 1.0)), "declick" => Box::new(h::declick()), "monitor" => Box::new(h::monitor(&h::shared(0.0), h::Meter::Sample)),
        "wave" => Box::new(h::wavech(&std::sync::Arc::new(nodes::test_wave(1, 50, 44100.0, 1)), 0, None)),
        x => panic!("no leaf {}", x),
    };
    (vec![Kind::Audio; s.ins], u)
}

/// The delay of a limiter, measured on the signal itself.
fn limiter_delay(a: f32, sr: f64) -> f64 {
    let mut u = h::limiter(a, 0.001);
    u.set_sample_rate(sr);
    let mut n = 0;
    // The first sample is one and the rest are halves: it comes out after the delay.
    let mut x = 1.0;
    while u.filter_mono(x) == 0.0 { n += 1; x = 0.5; if n > 1000000 { panic!("limiter is silent") } }
    n as f64
}

type V = Vec<Option<f64>>;
fn lo(a: Option<f64>, b: Option<f64>) -> Option<f64> { match (a, b) { (Some(x), Some(y)) => Some(x.min(y)), (x, None) => x, (None, y) => y } }
fn all(v: &V) -> Option<f64> { v.iter().fold(None, |a, b| lo(a, *b)) }

fn leaf_model(s: &LeafSpec, x: &V, sr: f64) -> V {
    let lim = |i: usize| limiter_delay(attack(&s.p, i), sr);
    let plus = |v: Option<f64>, d: f64| v.map(|x| x + d);
    let w = window(&s.p) as f64;
    match s.name {
        "pass" | "multipass2" | "tanh" | "lowpole" | "delay" | "tick" | "sine" | "declick" | "monitor" => x.clone(),
        "reverse3" => vec![x[2], x[1], x[0]],
        "split2" | "split3" => vec![x[0]; s.outs],
        "join2" | "join3" | "map2" => vec![all(x)],
        // Parameter inputs do not carry the signal; the signal input decides.
        "lowpass3" => vec![x[0]],
        "rotate" | "mixer" => vec![all(x); s.outs],
        "limiter" | "limiter_stereo" | "limiter3" | "net_limiter" | "slot_limiter" => { let l = lim(0); x.iter().map(|v| plus(*v, l)).collect() }
        "over_limiter" => vec![plus(x[0], limiter_delay(attack(&s.p, 0), sr * 2.0) * 0.5)],
        "resynth11" | "resynth21" | "resynth12" | "resynth22" | "resynth32" | "branch_resynth" => vec![plus(all(x), w); s.outs],
        "sink1" | "sink2" => vec![],
        "noise" | "wave" => vec![Some(0.0)],
        "constant1" | "constant2" | "zero" => vec![None; s.outs],
        "stacki_limiter" => vec![plus(x[0], lim(0)), plus(x[1], lim(1))],
        "sumi_limiter" => vec![lo(plus(x[0], lim(0)), plus(x[1], lim(1)))],
        "busi_limiter" => vec![(0..3).fold(None, |a, i| lo(a, plus(x[0], lim(i))))],
        "branchi_limiter" => (0..3).map(|i| plus(x[0], lim(i))).collect(),
        "pipei_limiter" => vec![plus(x[0], lim(0) + lim(1) + lim(2))],
        n => panic!("no model for {}", n),
    }
}

fn model(g: &G, x: &V, sr: f64) -> V {
    let two = |a: &G, b: &G, x: &V, y: &V| -> V { model(a, x, sr).into_iter().zip(model(b, y, sr)).map(|(p, q)| lo(p, q)).collect() };
    match g {
        G::Leaf(l) => leaf_model(l, x, sr),
        G::Pipe(a, b) => model(b, &model(a, x, sr), sr),
        G::Stack(a, b) => { let k = a.ins(); let mut v = model(a, &x[..k].to_vec(), sr); v.extend(model(b, &x[k..].to_vec(), sr)); v }
        G::Branch(a, b) => { let mut v = model(a, x, sr); v.extend(model(b, x, sr)); v }
        G::Bus(a, b) => two(a, b, x, x),
        G::Sum(a, b) | G::Sub(a, b) | G::Mul(a, b) => { let k = a.ins(); two(a, b, &x[..k].to_vec(), &x[k..].to_vec()) }
        G::Thru(a) => { let mut v = model(a, x, sr); v.truncate(x.len()); let k = v.len(); v.extend_from_slice(&x[k..]); v }
        G::Neg(a) | G::AddC(a, _) | G::CAdd(_, a) | G::SubC(a, _) | G::CSub(_, a) | G::MulC(a, _) | G::CMul(_, a) => model(a, x, sr),
        G::Probe { .. } => unreachable!(),
    }
}

fn gen_leaf(src: &mut Src, ins: usize, outs: usize) -> G {
    let latent = src.below(3) > 0;
    for k in 0..16 {
        let i = src.below(LEAVES.len() as u64) as usize;
        let (name, a, b) = LEAVES[i];
        if latent && k < 12 && !name.contains("limiter") && !name.contains("resynth") { continue; }
        if a == ins && b == outs {
            let p = (0..2).map(|_| src.below(101) as f64 / 101.0).collect();
            return G::Leaf(LeafSpec { kind: BASE + i, p, name, ins, outs });
        }
    }
    if ins == 0 || outs == 0 {
        // An exact fit always exists for small arities: stack single leaves.
        let one = |n: &'static str, i: usize, o: usize| G::Leaf(LeafSpec { kind: BASE + LEAVES.iter().position(|l| l.0 == n).unwrap(), p: vec![0.0, 0.0], name: n, ins: i, outs: o });
        if ins == 0 && outs == 0 { return G::Pipe(Box::new(one("noise", 0, 1)), Box::new(one("sink1", 1, 0))); }
        let mut g: Option<G> = None;
        for _ in 0..h::max(ins, outs) {
            let x = if ins == 0 { one(if src.bool() { "noise" } else { "constant1" }, 0, 1) } else { one("sink1", 1, 0) };
            g = Some(match g { None => x, Some(y) => G::Stack(Box::new(y), Box::new(x)) });
        }
        return g.unwrap();
    }
    G::Leaf(nodes::gen_mixer(src, ins, outs))
}

fn gen(src: &mut Src, ins: usize, outs: usize, depth: usize) -> G {
    if depth == 0 { return gen_leaf(src, ins, outs); }
    macro_rules! go { ($i:expr, $o:expr) => { Box::new(gen(src, $i, $o, depth - 1)) } }
    match src.below(16) {
        0 | 1 => gen_leaf(src, ins, outs),
        2..=5 => { let k = src.size(0, 3); let a = go!(ins, k); let b = go!(k, outs); G::Pipe(a, b) }
        6 | 7 => { let (i, o) = (src.size(0, ins), src.size(0, outs)); let a = go!(i, o); let b = go!(ins - i, outs - o); G::Stack(a, b) }
        8 => { let o = src.size(0, outs); let a = go!(ins, o); let b = go!(ins, outs - o); G::Branch(a, b) }
        9 => { let a = go!(ins, outs); let b = go!(ins, outs); G::Bus(a, b) }
        10 | 11 if outs > 0 => { let i = src.size(0, ins); let a = go!(i, outs); let b = go!(ins - i, outs); match src.below(3) { 0 => G::Sum(a, b), 1 => G::Sub(a, b), _ => G::Mul(a, b) } }
        12 if ins == outs => { let o = src.size(0, 3); G::Thru(go!(ins, o)) }
        13 if outs > 0 => G::Neg(go!(ins, outs)),
        14 | 15 if outs > 0 => {
            let k = src.below(4);
            let a = go!(ins, outs);
            match k { 0 => G::AddC(a, 0.5), 1 => G::CSub(0.5, a), 2 => G::MulC(a, 0.5), _ => G::SubC(a, 1.5) }
        }
        _ => gen_leaf(src, ins, outs),
    }
}

fn provide() { vfcore::probe::set_provider(vfcore::probe::Provider { gen: |_, _| unreachable!(), build: build_leaf }); }

fn wrap(src: &mut Src, u: Un) -> Un {
    match src.below(8) {
        0 => Box::new(Net::wrap(u)),
        1 => { let mut n = Net::wrap(u); Box::new(n.backend()) }
        2 => Box::new(Slot::new(u).1),
        3 => Box::new(BigBlockAdapter::new(u)),
        _ => u,
    }
}

const RATES: &[f64] = &[44100.0, 48000.0, 22050.0, 96000.0, 11025.0];

fn exact(src: &mut Src, ctx: &mut Ctx) -> Res {
    provide();
    let (i, o) = (src.size(0, 3), src.size(0, 3));
    let g = gen(src, i, o, 4);
    ctx.note(g.describe());
    let mut u: Un = if src.chance(1, 3) { Box::new(vfgraph::build_net(&g, src)) } else { vfgraph::build(&g) };
    u = wrap(src, u);
    let mut sr = 44100.0;
    if src.bool() { sr = *src.pick(RATES); u.set_sample_rate(sr); }
    let want = all(&model(&g, &vec![Some(0.0); i], sr));
    let got = u.latency();
    if want.unwrap_or(0.0) > 0.0 { ctx.nontrivial(); }
    let ok = match (want, got) { (None, None) => true, (Some(a), Some(b)) => (a - b).abs() < 1.0e-6, _ => false };
    ensure!(ok, "latency", "latency of {} at {} Hz is reported as {:?}, should be {:?}", g.describe(), sr, got, want);
    // The analysis must not disturb the unit or depend on its state.
    if u.outputs() > 0 && src.chance(1, 4) {
        let n = 40;
        let inp = gen_input(src, &vec![Kind::Audio; i], n);
        render(&mut *u, &inp, 0, &all_blocks(n));
        ensure!(u.latency() == got, "latency-after-play", "latency changed from {:?} to {:?} by playing {}", got, u.latency(), g.describe());
    }
    Ok(())
}

/// Signals of every kind, each with its own latency, through a graph: each output has the least latency among its inputs' paths.
fn routed(src: &mut Src, ctx: &mut Ctx) -> Res {
    use fundsp::signal::{Signal, SignalFrame};
    provide();
    let (i, o) = (src.size(1, 3), src.size(1, 3));
    let g = gen(src, i, o, 3);
    ctx.note(g.describe());
    let mut u: Un = if src.chance(1, 4) { Box::new(vfgraph::build_net(&g, src)) } else { vfgraph::build(&g) };
    u = wrap(src, u);
    let sr = *src.pick(RATES);
    u.set_sample_rate(sr);
    let mut frame = SignalFrame::new(i);
    let mut x: V = vec![];
    let mut text = vec![];
    for k in 0..i {
        let l = src.below(200) as f64;
        let (a, b, t) = match src.below(8) {
            0 => (Signal::Unknown, None, "unknown"),
            1 => (Signal::Value(src.f64(-1.0, 1.0)), None, "value"),
            2..=4 => (Signal::Latency(l), Some(l), "latency"),
            _ => (Signal::Response(fundsp::hacker::Complex64::new(src.f64(-1.0, 1.0), 0.5), l), Some(l), "response"),
        };
        frame.set(k, a);
        x.push(b);
        text.push(format!("{} {:?}", t, b));
    }
    let want = model(&g, &x, sr);
    let f = src.logf(10.0, 10000.0);
    let out = u.route(&frame, f);
    ensure!(out.len() == o, "frame", "{} routes to {} signals", g.describe(), out.len());
    for k in 0..o {
        let got = match out.at(k) { Signal::Latency(l) | Signal::Response(_, l) => Some(l), _ => None };
        if want[k].unwrap_or(0.0) > 0.0 { ctx.nontrivial(); }
        let ok = match (want[k], got) { (None, None) => true, (Some(a), Some(b)) => (a - b).abs() < 1.0e-6, _ => false };
        ensure!(ok, "routed latency", "{} at {} Hz with inputs {}: latency of output {} is {:?}, should be {:?}", g.describe(), sr, text.join(", "), k, got, want[k]);
    }
    Ok(())
}

/// Frames of many channels.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Res {
    use fundsp::hacker as h;
    use fundsp::hacker::{U17, U18, U2, U20, U3, U34};
    use fundsp::signal::{Signal, SignalFrame};
    let sr = *src.pick(RATES);
    let look = |i: u64| (1 + i % 7) as f32 * 0.0013;
    let lat = |i: usize| (look(i as u64) as f64 * sr).round().max(1.0);
    let kind = src.below(8);
    ctx.note(format!("wide {kind} at {sr}"));
    // Delay of each output, and the inputs it depends on.
    let (mut u, map): (Un, Vec<(f64, Vec<usize>)>) = match kind {
        0 => (Box::new(h::stacki::<U20, _, _>(|i| h::limiter(look(i), 0.01)) | h::multipass::<U3>()), (0..23).map(|i| (if i < 20 { lat(i) } else { 0.0 }, vec![i])).collect()),
        1 => (Box::new(h::multipass::<U3>() | h::stacki::<U20, _, _>(|i| h::limiter(look(i), 0.01))), (0..23).map(|i| (if i < 3 { 0.0 } else { lat(i - 3) }, vec![i])).collect()),
        2 => (Box::new(h::branchi::<U2, _, _>(|_| h::stacki::<U17, _, _>(|i| h::limiter(look(i), 0.01)))), (0..34).map(|i| (lat(i % 17), vec![i % 17])).collect()),
        3 => (Box::new(h::stacki::<U17, _, _>(|i| h::limiter(look(i), 0.01)) + h::multipass::<U17>()), (0..17).map(|i| (0.0, vec![i, i + 17])).collect()),
        4 => (Box::new(h::sumi::<U2, _, _>(|k| h::stacki::<U18, _, _>(move |i| h::limiter(look(i + k), 0.01)))), (0..18).map(|i| (-1.0, vec![i, i + 18])).collect()),
        5 => (Box::new(h::reverse::<U34>() >> (h::multipass::<U17>() | h::stacki::<U17, _, _>(|i| h::limiter(look(i), 0.01)))), (0..34).map(|i| (if i < 17 { 0.0 } else { lat(i - 17) }, vec![33 - i])).collect()),
        6 => (Box::new(h::thru(h::stacki::<U20, _, _>(|i| h::limiter(look(i), 0.01)) >> h::join::<U20>())), (0..20).map(|i| if i == 0 { (-2.0, (0..20).collect()) } else { (0.0, vec![i]) }).collect()),
        _ => {
            let mut n = fundsp::hacker::Net::wrap(Box::new(h::limiter(look(0), 0.01)));
            let k = src.size(17, 40);
            for i in 1..k {
                let x = fundsp::hacker::Net::wrap(Box::new(h::limiter(look(i as u64), 0.01)));
                n = n | x;
            }
            (Box::new(n), (0..k).map(|i| (lat(i), vec![i])).collect())
        }
    };
    if src.chance(1, 3) { u = Box::new(fundsp::hacker::Net::wrap(u)); }
    u.set_sample_rate(sr);
    ctx.nontrivial();
    let mut frame = SignalFrame::new(u.inputs());
    let x: Vec<f64> = (0..u.inputs()).map(|_| src.below(200) as f64).collect();
    for (i, l) in x.iter().enumerate() { frame.set(i, if src.bool() { Signal::Latency(*l) } else { Signal::Response(fundsp::hacker::Complex64::new(0.5, 0.0), *l) }); }
    let out = u.route(&frame, 1000.0);
    ensure!(out.len() == map.len(), "wide frame", "{} signals instead of {}", out.len(), map.len());
    for (k, (d, from)) in map.iter().enumerate() {
        let want = match (kind, *d) {
            (3, _) => (x[from[0]] + lat(k)).min(x[from[1]]),
            (4, _) => (x[from[0]] + lat(k)).min(x[from[1]] + lat(k + 1)),
            (6, d) if d < 0.0 => from.iter().map(|&i| x[i] + lat(i)).fold(f64::INFINITY, f64::min),
            _ => x[from[0]] + d,
        };
        let got = match out.at(k) { Signal::Latency(l) | Signal::Response(_, l) => Some(l), _ => None };
        ensure!(got.is_some_and(|l| (l - want).abs() < 1.0e-6), "wide latency", "output {k} of wide unit {kind} at {sr} Hz has latency {got:?}, should be {want} with inputs {x:?}");
    }
    Ok(())
}

/// Whatever is reported for an arbitrary unit must be true of its signal.
fn sound(src: &mut Src, ctx: &mut Ctx) -> Res {
    provide();
    let g = if src.chance(1, 2) {
        let spec = nodes::gen_spec(src);
        // Partial resynthesis smears the signal in time: its latency is nominal.
        if spec.name.starts_with("resynth") { return Ok(()); }
        G::Leaf(spec)
    } else {
        let (i, o) = (src.size(1, 3), src.size(1, 3));
        gen(src, i, o, 3)
    };
    if g.ins() == 0 || g.outs() == 0 { return Ok(()); }
    ctx.note(g.describe());
    let (kinds, mut u): (Vec<Kind>, Un) = if let G::Leaf(s) = &g { if s.kind < BASE { let l = nodes::build(s); (l.ins, l.unit) } else { build_leaf(s) } } else { (vec![Kind::Audio; g.ins()], vfgraph::build(&g)) };
    u = wrap(src, u);
    let sr = *src.pick(RATES);
    u.set_sample_rate(sr);
    let l = u.latency();
    let n = match l { None => 400, Some(x) => (x + 1.0e-9).floor() as usize };
    // Filter parameters are not counted as signal paths.
    if g.describe().contains("lowpass3") { return Ok(()); }
    // A limiter fed with an offset modulates it ahead of the signal, as it should.
    if l.is_some() && !matches!(g, G::Leaf(_)) { ctx.label("latent graph"); return Ok(()); }
    if n == 0 { ctx.label("zero latency"); return Ok(()); }
    ctx.nontrivial();
    let mut outs = vec![];
    for _ in 0..2 {
        u.reset();
        let inp = gen_input(src, &kinds, n);
        outs.push(render(&mut *u, &inp, 0, &all_blocks(n)));
    }
    let name = if let G::Leaf(l) = &g { l.name } else { "graph" };
    for c in 0..outs[0].len() { for i in 0..n {
        let tiny = (outs[0][c][i] - outs[1][c][i]).abs() < 1.0e-4;
        ensure!(tiny || same(outs[0][c][i], outs[1][c][i]), format!("{} unsound", name), "{} reports latency {:?} but output {} depends on the input at sample {} after a reset", g.describe(), l, c, i);
    } }
    Ok(())
}

/// Latency-compensated rendering and filtering remove exactly the latency.
fn compensated(src: &mut Src, ctx: &mut Ctx) -> Res {
    provide();
    let i = if src.bool() { 0 } else { src.size(1, 3) };
    let o = src.size(1, 3);
    let g = gen(src, i, o, 3);
    ctx.note(g.describe());
    let sr = *src.pick(RATES);
    let first = *src.pick(RATES);
    let len = src.size(1, 300);
    let dur = (len as f64 + src.f64(-0.4, 0.4)) / sr;
    let mut u = vfgraph::build(&g);
    let history = src.bool();
    if history { u.set_sample_rate(first); }
    let want = all(&model(&g, &vec![Some(0.0); i], sr)).unwrap_or(0.0).floor() as usize;
    if want > 0 { ctx.nontrivial(); }
    let mut plain = vfgraph::build(&g);
    plain.set_sample_rate(sr);
    let (got, input): (Wave, Sig) = if i == 0 {
        (Wave::render_latency(sr, dur, &mut *u), vec![])
    } else {
        let m = src.size(1, 300);
        let x = gen_input(src, &vec![Kind::Audio; i], m);
        let mut w = Wave::with_capacity(i, sr, m);
        w.resize(m);
        for c in 0..i { for k in 0..m { w.set(c, k, x[c][k]); } }
        let mut padded = x.clone();
        for c in 0..i { padded[c].resize(len + want + 64, 0.0); }
        (w.filter_latency(dur, &mut *u), padded)
    };
    ensure!(got.len() == len && got.channels() == o && got.sample_rate() == sr, "shape", "compensated wave has {} samples, {} channels at {} Hz instead of {}, {}, {}", got.len(), got.channels(), got.sample_rate(), len, o, sr);
    let raw = render(&mut *plain, &input, 0, &all_blocks(len + want));
    for c in 0..o { for k in 0..len {
        let (a, b) = (got.at(c, k), raw[c][k + want]);
        ensure!((a - b).abs() <= 1.0e-5 * (1.0 + b.abs()) || same(a, b), "compensation", "{} at {} Hz, channel {}: compensated sample {} is {}, should be sample {} of the plain output, {}", g.describe(), sr, c, k, a, k + want, b);
    } }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C12",
        rule: "routed: input signals of every kind and latency; non-trivial when an output has positive latency. exact: a graph of latent and plain units; non-trivial when its true latency is positive. sound: an arbitrary unit or graph; non-trivial when it reports no dependence or a positive latency, which is then tested on its signal. compensated: non-trivial when there is latency to remove",
        assumptions: &["filter parameter inputs are not signal paths", "a constant is not a signal: units driven by constants only are not analyzed by design", "feedback loops use conservative routing and are not given latent units", "partial resynthesis has nominal latency"],
        subs: vec![
            Sub { name: "exact", quick: 600000, thorough: 60000000, f: exact },
            Sub { name: "wide", quick: 4000, thorough: 200_000, f: wide },
            Sub { name: "routed", quick: 400000, thorough: 40000000, f: routed },
            Sub { name: "sound", quick: 1000000, thorough: 300000000, f: sound },
            Sub { name: "compensated", quick: 300000, thorough: 30000000, f: compensated },
        ],
    })
}
