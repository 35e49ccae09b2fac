//! C11: the analytic frequency response equals the measured response.
use fundsp::hacker::{AudioUnit, BigBlockAdapter, Net, Slot};
use std::f64::consts::TAU;
use vfcore::render::*;
use vfcore::*;
use vfgraph::G;
use vfnodes as nodes;

type Un = Box<dyn AudioUnit>;

/// Units that say they pretend to be linear.
const PRETEND: &[&str] = &["limiter", "limiter_stereo", "declick", "oversample_filter", "panner"];

fn lti_kinds() -> &'static [usize] {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| (0..nodes::catalogue().len()).filter(|&k| nodes::build(&nodes::spec_with(k, vec![0.4; 6])).lti).collect())
}

fn gen_leaf(src: &mut Src, ins: usize, outs: usize, wild: bool, narrow: bool) -> G {
    for _ in 0..5 {
        let kind = if wild && src.chance(1, 3) { src.below(nodes::catalogue().len() as u64) as usize } else { *src.pick(lti_kinds()) };
        let spec = nodes::gen_kind(src, kind);
        let l = nodes::build(&spec);
        if (l.narrow && !narrow) || (!l.lti && !wild) || spec.name == "delay_long" { continue; }
        if spec.ins == ins && spec.outs == outs && !PRETEND.contains(&spec.name) { return G::Leaf(spec); }
    }
    G::Leaf(nodes::gen_mixer(src, ins, outs))
}

fn gen(src: &mut Src, ins: usize, outs: usize, depth: usize, wild: bool, narrow: bool) -> G {
    if depth == 0 { return gen_leaf(src, ins, outs, wild, narrow); }
    macro_rules! go { ($i:expr, $o:expr) => { Box::new(gen(src, $i, $o, depth - 1, wild, narrow)) } }
    match src.below(16) {
        0 | 1 => gen_leaf(src, ins, outs, wild, narrow),
        2..=5 => { let k = src.size(1, 3); let a = go!(ins, k); let b = go!(k, outs); G::Pipe(a, b) }
        6 if ins > 1 && outs > 1 => {
            let (i, o) = (src.size(1, ins - 1), src.size(1, outs - 1));
            let a = go!(i, o);
            let b = go!(ins - i, outs - o);
            G::Stack(a, b)
        }
        7 if outs > 1 => { let o = src.size(1, outs - 1); let a = go!(ins, o); let b = go!(ins, outs - o); G::Branch(a, b) }
        8 | 9 => { let a = go!(ins, outs); let b = go!(ins, outs); G::Bus(a, b) }
        10 | 11 if ins > 1 => {
            let i = src.size(1, ins - 1);
            let a = go!(i, outs);
            let b = go!(ins - i, outs);
            if wild && src.chance(1, 3) { G::Mul(a, b) } else if src.bool() { G::Sum(a, b) } else { G::Sub(a, b) }
        }
        12 if ins == outs => { let o = src.size(1, 3); G::Thru(go!(ins, o)) }
        13 => G::Neg(go!(ins, outs)),
        14 | 15 if !narrow => {
            let c = (src.below(33) as f32 - 16.0) / 8.0;
            let c = if c == 0.0 { 0.5 } else { c };
            let kind = src.below(6);
            let a = go!(ins, outs);
            match kind { 0 => G::AddC(a, c), 1 => G::CAdd(c, a), 2 => G::SubC(a, c), 3 => G::CSub(c, a), 4 => G::MulC(a, c), _ => G::CMul(c, a) }
        }
        _ => gen_leaf(src, ins, outs, wild, narrow),
    }
}

/// Impulse response with the response to silence subtracted: `None` when it has not decayed.
fn measure(u: &mut Un, shift: usize, amp: f32, weights: &[f32], outs: usize, offsets: bool) -> Option<(Vec<Vec<f64>>, f64)> {
    let ins = u.inputs();
    let mut n = 4096;
    let mut done = 0;
    let mut base = 0.0f64;
    let mut silent = u.clone();
    let mut h = vec![vec![]; outs];
    let mut input: Sig = vec![vec![]; ins];
    let mut zero: Sig = vec![vec![]; ins];
    while n <= 32768 {
        for c in 0..ins { input[c].resize(n, 0.0); zero[c].resize(n, 0.0); input[c][shift] = amp * weights[c]; }
        let steps = all_blocks(n - done);
        let a = render(&mut **u, &input, done, &steps);
        let b = render(&mut *silent, &zero, done, &steps);
        for c in 0..outs {
            for i in 0..n - done { h[c].push((a[c][i] as f64 - b[c][i] as f64) / amp as f64); }
        }
        base = base.max(peak(&b));
        done = n;
        n *= 2;
        let ok = h.iter().all(|x: &Vec<f64>| {
            let s: f64 = x.iter().map(|y| y.abs()).sum();
            let t: f64 = x[done * 3 / 4..].iter().map(|y| y.abs()).sum();
            s.is_finite() && t <= 1.0e-6 * s
        });
        if ok { return Some((h, (base + if offsets { 1.0 } else { 0.0 }) * done as f64)); }
    }
    None
}


fn offsets(g: &G) -> bool {
    match g {
        G::AddC(..) | G::CAdd(..) | G::SubC(..) | G::CSub(..) => true,
        G::Pipe(a, b) | G::Stack(a, b) | G::Branch(a, b) | G::Bus(a, b) | G::Sum(a, b) | G::Sub(a, b) | G::Mul(a, b) => offsets(a) || offsets(b),
        G::Thru(a) | G::Neg(a) | G::MulC(a, _) | G::CMul(_, a) => offsets(a),
        G::Leaf(l) => l.ins == 0 || ["add", "constant"].contains(&l.name),
        _ => false,
    }
}

fn dtft(h: &[f64], shift: usize, w: f64) -> (f64, f64) {
    let (mut re, mut im) = (0.0, 0.0);
    for (i, x) in h.iter().enumerate() {
        if *x != 0.0 {
            let p = -w * (i as f64 - shift as f64);
            re += x * p.cos();
            im += x * p.sin();
        }
    }
    (re, im)
}

fn case(src: &mut Src, ctx: &mut Ctx, wild: bool, single: bool) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let mut narrow = src.chance(1, 4);
    let g = if single {
        let k = if wild { src.below(nodes::catalogue().len() as u64) as usize } else { *src.pick(lti_kinds()) };
        let s = nodes::gen_kind(src, k);
        if PRETEND.contains(&s.name) || s.ins == 0 || s.outs == 0 { return Ok(()); }
        let l = nodes::build(&s);
        if !l.lti && !wild { return Ok(()); }
        narrow = l.narrow || (wild && !l.lti);
        G::Leaf(s)
    } else {
        let (i, o) = (src.size(1, 3), src.size(1, 2));
        gen(src, i, o, 3, wild, narrow)
    };
    let name = if let G::Leaf(l) = &g { l.name.to_string() } else { "graph".into() };
    ctx.note(g.describe());
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0, 32000.0]);
    let mut u: Un = if single {
        if let G::Leaf(l) = &g { nodes::build(l).unit } else { unreachable!() }
    } else if src.chance(1, 3) {
        Box::new(vfgraph::build_net(&g, src))
    } else { vfgraph::build(&g) };
    match src.below(8) {
        0 => u = Box::new(Net::wrap(u)),
        1 => { let mut n = Net::wrap(u); u = Box::new(n.backend()); }
        2 => u = Box::new(Slot::new(u).1),
        3 => u = Box::new(BigBlockAdapter::new(u)),
        _ => (),
    }
    u.set_sample_rate(sr);
    // The analysis must not depend on whether the unit has been played.
    let played = src.chance(1, 4);
    if played {
        let kinds = vec![kind::Kind::Audio; u.inputs()];
        let inp = gen_input(src, &kinds, 70);
        render(&mut *u, &inp, 0, &all_blocks(70));
    }
    let outs = u.outputs();
    let freqs: Vec<f64> = (0..3).map(|_| match src.below(8) { 0 => sr * 0.5 * src.u01(), 1 => *src.pick(&[0.0, 1.0, sr * 0.25, sr * 0.5]), _ => src.logf(10.0, sr * 0.5) }).collect();
    let mut resp = vec![];
    // Input channels carry the same signal at different levels: with all of them equal, crossed channels would not show.
    let plain = u.inputs() == 1 || src.bool();
    let weights: Vec<f32> = (0..u.inputs()).map(|_| if plain { 1.0 } else { *src.pick(&[1.0f32, -0.5, 2.0, -3.0, 0.25]) }).collect();
    for c in 0..outs {
        for &f in &freqs {
            let r = u.response(c, f);
            if !wild {
                ensure!(r.is_some(), format!("{} no-response", name), "no response reported for linear graph {}, output {}", g.describe(), c);
            }
            match (r, u.response_db(c, f)) {
                (Some(z), Some(db)) => ensure!(close(db, 20.0 * z.norm().log10(), 1.0e-6, 1.0e-9) || z.norm() == 0.0, "response_db", "response_db {} for {} in {}", db, z, g.describe()),
                (None, None) => (),
                _ => return fail("response_db", format!("response and response_db disagree in {}", g.describe())),
            }
            let r = if plain { r } else {
                let mut frame = fundsp::signal::SignalFrame::new(weights.len());
                for (i, w) in weights.iter().enumerate() { frame.set(i, fundsp::signal::Signal::Response(fundsp::hacker::Complex64::new(*w as f64, 0.0), 0.0)); }
                match u.route(&frame, f).at(c) { fundsp::signal::Signal::Response(z, _) => Some(z), _ => None }
            };
            resp.push((c, f, r));
        }
    }
    if resp.iter().all(|r| r.2.is_none()) { ctx.label("reported none"); return Ok(()); }
    u.reset();
    let shift = src.size(1, 70);
    let amp = *src.pick(&[1.0f32, 0.5, -0.25]);
    let Some((h, base)) = measure(&mut u, shift, amp, &weights, outs, offsets(&g)) else {
        ctx.label("not decayed");
        return Ok(());
    };
    ctx.nontrivial();
    // Rounding next to a constant offset accumulates over the impulse response.
    let base = base * 4.0e-7 / amp.abs() as f64;
    for (c, f, r) in resp {
        let Some(r) = r else { continue };
        let m = dtft(&h[c], shift, TAU * f / sr);
        let s: f64 = h[c].iter().map(|x| x.abs()).sum();
        let d = ((r.re - m.0).powi(2) + (r.im - m.1).powi(2)).sqrt();
        let tol = base + if narrow { 1.0e-2 * s + 1.0e-5 } else { 1.0e-4 * s + 2.0e-6 };
        ensure!(d <= tol, format!("{} response", name), "response of {} output {} at {} Hz (rate {}) reported {} measured {}+{}i (error {:.2e}, tolerance {:.2e})", g.describe(), c, f, sr, r, m.0, m.1, d, tol);
    }
    Ok(())
}

/// Filters with parameter inputs report the response at the parameters they saw last.
fn controlled(src: &mut Src, ctx: &mut Ctx) -> Res {
    use fundsp::hacker as h;
    let kind = src.below(15);
    let mut u: Un = match kind {
        0 => Box::new(h::lowpass()), 1 => Box::new(h::highpass()), 2 => Box::new(h::bandpass()), 3 => Box::new(h::notch()),
        4 => Box::new(h::peak()), 5 => Box::new(h::allpass()), 6 => Box::new(h::morph()), 7 => Box::new(h::resonator()),
        8 => Box::new(h::lowpole()), 9 => Box::new(h::highpole()), 10 => Box::new(h::allpole()), 11 => Box::new(h::butterpass()),
        12 => Box::new(h::bell()), 13 => Box::new(h::lowshelf()), _ => Box::new(h::highshelf()),
    };
    let name = ["lowpass", "highpass", "bandpass", "notch", "peak", "allpass", "morph", "resonator", "lowpole", "highpole", "allpole", "butterpass", "bell", "lowshelf", "highshelf"][kind as usize];
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    match src.below(6) {
        0 => u = Box::new(Net::wrap(u)),
        1 => u = Box::new(Slot::new(u).1),
        _ => (),
    }
    u.set_sample_rate(sr);
    let pars = u.inputs() - 1;
    let mut gen = |src: &mut Src| -> Vec<f32> {
        (0..pars).map(|j| match (j, kind) {
            (0, 10) => src.f32(0.2, 2.0),
            (0, _) => src.logf(100.0, sr * 0.4) as f32,
            (1, 7) => src.f32(200.0, 2000.0),
            (1, _) => src.f32(0.4, 4.0),
            (_, 6) => src.f32(-1.0, 1.0),
            _ => src.f32(0.2, 4.0),
        }).collect()
    };
    let stages = src.size(1, 4);
    let mut p = gen(src);
    let mut trail = vec![];
    for i in 0..stages {
        if i > 0 {
            let next = gen(src);
            for j in 0..pars { if src.chance(2, 3) { p[j] = next[j]; } }
        }
        // The last change may come within a block.
        let n = src.size(1, 100);
        let m = if i + 1 == stages && src.bool() { src.below(n as u64) as usize } else { 0 };
        let before = gen(src);
        let input: Sig = (0..=pars).map(|c| (0..n).map(|t| if c == 0 { ((t * 7) % 5) as f32 * 0.1 - 0.2 } else if t < m { before[c - 1] } else { p[c - 1] }).collect()).collect();
        let steps = gen_steps(src, n);
        render(&mut *u, &input, 0, &steps);
        trail.push((n, m, p.clone()));
    }
    let freqs: Vec<f64> = (0..3).map(|_| src.logf(10.0, sr * 0.5)).collect();
    ctx.note(format!("{name} {p:?} after {stages} stages at {sr}"));
    let mut resp = vec![];
    for f in freqs {
        let Some(r) = u.response(0, f) else { return fail("controlled none", format!("{name} reports no response")) };
        resp.push((f, r));
    }
    u.reset();
    let (mut n, mut done) = (4096, 0);
    let shift = 1 + src.below(60) as usize;
    let mut hh: Vec<f64> = vec![];
    loop {
        let input: Sig = (0..=pars).map(|c| (0..n).map(|t| if c == 0 { (t == shift) as u8 as f32 } else { p[c - 1] }).collect()).collect();
        let y = render(&mut *u, &input, done, &all_blocks(n - done));
        hh.extend(y[0].iter().map(|x| *x as f64));
        done = n;
        n *= 2;
        let s: f64 = hh.iter().map(|y| y.abs()).sum();
        let t: f64 = hh[done * 3 / 4..].iter().map(|y| y.abs()).sum();
        if s.is_finite() && t <= 1.0e-6 * s { break; }
        if n > 32768 { ctx.label("not decayed"); return Ok(()); }
    }
    if stages > 1 { ctx.nontrivial(); }
    let s: f64 = hh.iter().map(|x| x.abs()).sum();
    for (f, r) in resp {
        let m = dtft(&hh, shift, TAU * f / sr);
        let d = ((r.re - m.0).powi(2) + (r.im - m.1).powi(2)).sqrt();
        let tol = 1.0e-3 * s + 1.0e-5;
        ensure!(d <= tol, format!("{} controlled", name), "{name} last saw {p:?} ({trail:?}, rate {sr}): at {f} Hz it reports {r} but measures {}+{}i (error {d:.2e}, tolerance {tol:.2e})", m.0, m.1);
    }
    Ok(())
}

/// Hand-wired networks of linear units: any acyclic wiring, some ports left unconnected, outputs from anywhere.
const DISPLAY_F: [f64; 48] = [
    10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0, 80.0, 90.0, 100.0, 120.0, 140.0, 160.0, 180.0, 200.0, 250.0, 300.0, 350.0, 400.0, 450.0, 500.0, 600.0, 700.0, 800.0, 900.0, 1000.0, 1200.0, 1400.0,
    1600.0, 1800.0, 2000.0, 2500.0, 3000.0, 3500.0, 4000.0, 4500.0, 5000.0, 6000.0, 7000.0, 8000.0, 9000.0, 10000.0, 12000.0, 14000.0, 16000.0, 18000.0, 20000.0, 22000.0,
];

/// The printed summary of a unit shows the responses, latency and connectivity that the unit reports.
fn display(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let wild = src.bool();
    let (i, o) = (src.size(1, 3), src.size(1, 2));
    let g = gen(src, i, o, 2, wild, true);
    ctx.note(g.describe());
    let mut u: Un = vfgraph::build(&g);
    u.set_sample_rate(*src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]));
    let text = u.display();
    let get = |key: &str| -> Option<String> { text.lines().find(|l| l.starts_with(key)).and_then(|l| l.split(':').nth(1)).map(|x| x.trim().to_string()) };
    let number = |key: &str| -> Option<f64> { get(key).and_then(|x| x.split_whitespace().next().and_then(|y| y.parse::<f64>().ok())) };
    ensure!(number("Inputs") == Some(i as f64) && number("Outputs") == Some(o as f64), "display channels", "{} inputs and {} outputs displayed as\n{}", i, o, text);
    let l = u.latency().unwrap_or(0.0);
    ensure!(number("Latency").is_some_and(|x| (x - l).abs() <= 0.0501), "display latency", "latency {} displayed as\n{}", l, text);
    let f0 = src.logf(20.0, 10000.0);
    for c in 0..o {
        let (r, d) = (u.response(c, f0), u.response_db(c, f0));
        ensure!(r.is_some() == d.is_some(), "response_db", "response {:?} but response_db {:?}", r, d);
        if let (Some(r), Some(d)) = (r, d) {
            let e = 20.0 * r.norm().log10();
            ensure!(d == e || (d - e).abs() <= 1.0e-3, "response_db", "response {} is {} dB but response_db is {}", r, e, d);
        }
    }
    let r: Vec<Option<f64>> = DISPLAY_F.iter().map(|&f| u.response_db(0, f)).collect();
    let peak = number("Peak Magnitude");
    if r.iter().any(|x| x.is_none()) {
        ensure!(peak.is_none(), "display of no response", "no response but displayed as\n{}", text);
        return Ok(());
    }
    let r: Vec<f64> = r.into_iter().flatten().collect();
    if r.iter().any(|x| !x.is_finite()) { return Ok(()); }
    ctx.nontrivial();
    let max = r.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    ensure!(peak.is_some_and(|x| (x - max).abs() <= 0.0151), "display peak", "the peak is {} dB but displayed as\n{}", max, text);
    if let Some(f) = get("Peak Magnitude").and_then(|x| x.split('(').nth(1).and_then(|y| y.split_whitespace().next().and_then(|z| z.parse::<f64>().ok()))) {
        ensure!(DISPLAY_F.iter().zip(&r).any(|(&a, &b)| a == f && (b - max).abs() <= 0.011), "display peak frequency", "the peak {} dB is not at {} Hz", max, f);
    }
    // A column reaches a labelled line exactly when the response is at least that many decibels.
    let mut top = f64::NEG_INFINITY;
    for line in text.lines().filter(|l| l.matches(" dB ").count() >= 1 && l.trim_end().ends_with("dB") && !l.starts_with("Peak")) {
        let label: f64 = line.split("dB").next().unwrap().trim().parse().unwrap_or(f64::NAN);
        ensure!(label.is_finite(), "display label", "{}", line);
        top = top.max(label);
        let start = line.find("dB ").unwrap() + 3;
        let columns: Vec<char> = line[start..].chars().take(48).collect();
        for k in 0..48 {
            if (r[k] - label).abs() < 1.0e-6 { continue; }
            let filled = columns[k] == '*' || columns[k] == '.';
            ensure!(filled == (r[k] > label), "display plot", "the response at {} Hz is {} dB, plotted as '{}' on the line of {} dB\n{}", DISPLAY_F[k], r[k], columns[k], label, text);
        }
    }
    ensure!(top >= max - 1.0e-6 && top < max + 10.0 + 1.0e-6, "display range", "the top line is {} dB but the peak is {} dB", top, max);
    Ok(())
}

fn networks(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let (ins, outs) = (src.size(1, 3), src.size(1, 3));
    let mut net = Net::new(ins, outs);
    let mut desc = String::new();
    let mut ports: Vec<(Option<fundsp::net::NodeId>, usize)> = (0..ins).map(|i| (None, i)).collect();
    let n = src.size(1, 5);
    let mut off = false;
    // The library does not analyze filters applied to constants: a response is demanded when silence only meets memoryless units.
    let mut tainted: Vec<bool> = vec![false; ins];
    let mut strict = true;
    for k in 0..n {
        let (i, o) = (src.size(1, 3), src.size(1, 2));
        let g = gen_leaf(src, i, o, false, false);
        desc += &format!("{}: {}(", k, g.describe());
        off |= offsets(&g);
        let id = net.push(vfgraph::build(&g));
        let memoryless = if let G::Leaf(l) = &g { l.name == "mixer" } else { false };
        let mut taint = false;
        for c in 0..i {
            if src.chance(1, if memoryless { 3 } else { 12 }) { desc += "- "; taint = true; continue; }
            let j = src.below(ports.len() as u64) as usize;
            taint |= tainted[j];
            match ports[j] {
                (None, p) => { net.connect_input(p, id, c); desc += &format!("in{} ", p); }
                (Some(s), p) => { net.connect(s, p, id, c); desc += &format!("p{} ", j); }
            }
        }
        desc += "); ";
        strict &= !taint || memoryless;
        for c in 0..o { ports.push((Some(id), c)); tainted.push(taint); }
    }
    for c in 0..outs {
        if src.chance(1, 8) { desc += "out -; "; continue; }
        let j = if src.bool() { ports.len() - 1 - src.below(3.min(ports.len() as u64)) as usize } else { src.below(ports.len() as u64) as usize };
        match ports[j] {
            (None, p) => { net.pass_through(p, c); desc += &format!("out in{}; ", p); }
            (Some(s), p) => { net.connect_output(s, p, c); desc += &format!("out p{}; ", j); }
        }
    }
    ctx.note(desc.clone());
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let mut u: Un = if src.chance(1, 4) { Box::new(net.backend()) } else { Box::new(net) };
    u.set_sample_rate(sr);
    let f = match src.below(6) { 0 => sr * 0.5 * src.u01(), 1 => *src.pick(&[0.0, 1.0, sr * 0.25, sr * 0.5]), _ => src.logf(10.0, sr * 0.5) };
    let resp: Vec<_> = (0..outs).map(|c| u.response(c, f)).collect();
    let shift = src.size(1, 70);
    let ones = vec![1.0; u.inputs()];
    let Some((h, base)) = measure(&mut u, shift, 1.0, &ones, outs, off) else { ctx.label("not decayed"); return Ok(()); };
    ctx.nontrivial();
    let base = base * 4.0e-7;
    for c in 0..outs {
        let s: f64 = h[c].iter().map(|x| x.abs()).sum();
        let m = dtft(&h[c], shift, TAU * f / sr);
        let Some(r) = resp[c] else {
            ensure!(!strict || s <= base + 1.0e-6, "network-no-response", "no response reported for output {} of linear network {}", c, desc);
            continue;
        };
        let d = ((r.re - m.0).powi(2) + (r.im - m.1).powi(2)).sqrt();
        let tol = base + 1.0e-4 * s + 2.0e-6;
        ensure!(d <= tol, "network-response", "response of output {} at {} Hz (rate {}) reported {} measured {}+{}i (error {:.2e}, tolerance {:.2e}): {}", c, f, sr, r, m.0, m.1, d, tol, desc);
    }
    Ok(())
}

/// Concrete nodes: the analysis methods of the node itself agree with those of the node as a unit, and with the impulse response.
fn typed(src: &mut Src, ctx: &mut Ctx) -> Res {
    use fundsp::hacker::*;
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0, 32000.0]);
    let f = src.logf32(80.0, 8000.0);
    let q = src.logf32(0.5, 4.0);
    let a = src.f32(-1.0, 1.0);
    let b = src.f32(-2.0, 2.0);
    let t = src.logf32(0.0003, 0.005);
    let freqs: Vec<f64> = (0..3).map(|_| src.logf(10.0, sr * 0.5)).collect();
    let shift = src.size(1, 70);
    let pick = src.below(22);
    // `measured` is false for nodes which say that they pretend to be linear.
    macro_rules! go {
        ($name:expr, $measured:expr, $node:expr) => {{
            let name = $name;
            ctx.note(format!("{name} f={f} q={q} a={a} b={b} t={t} rate={sr} frequencies={freqs:?}"));
            let mut n = $node;
            AudioNode::set_sample_rate(&mut *n, sr);
            let mut u: Un = Box::new(n.clone());
            let (ln, lu) = (AudioNode::latency(&mut *n), u.latency());
            ensure!(ln == lu, "latency of a node", "{name}: latency {ln:?} as a node, {lu:?} as a unit");
            let mut resp = vec![];
            for c in 0..u.outputs() {
                for &x in &freqs {
                    let (rn, ru) = (AudioNode::response(&mut *n, c, x), u.response(c, x));
                    let same = match (rn, ru) { (Some(p), Some(q)) => (p - q).norm() <= 1.0e-9 * (1.0 + q.norm()), (None, None) => true, _ => false };
                    ensure!(same, "response of a node", "{name}: output {c} at {x} Hz has response {rn:?} as a node, {ru:?} as a unit");
                    let dn = AudioNode::response_db(&mut *n, c, x);
                    let ok = match (rn, dn) { (Some(p), Some(d)) => p.norm() < 1.0e-12 || (d - 20.0 * p.norm().log10()).abs() < 1.0e-6, (None, None) => true, _ => false };
                    ensure!(ok, "response_db of a node", "{name}: output {c} at {x} Hz has response {rn:?} and {dn:?} dB");
                    if u.inputs() > 0 { ensure!(rn.is_some(), "no response of a node", "{name} is linear but reports no response"); }
                    if let Some(r) = rn { resp.push((c, x, r)); }
                }
            }
            if !$measured || u.inputs() == 0 { return Ok(()); }
            let weights = vec![1.0f32; u.inputs()];
            let outs = u.outputs();
            let Some((h, _)) = measure(&mut u, shift, 1.0, &weights, outs, false) else { ctx.label("not decayed"); return Ok(()); };
            ctx.nontrivial();
            for (c, x, r) in resp {
                let m = dtft(&h[c], shift, TAU * x / sr);
                let s: f64 = h[c].iter().map(|x| x.abs()).sum();
                let d = ((r.re - m.0).powi(2) + (r.im - m.1).powi(2)).sqrt();
                ensure!(d <= 1.0e-3 * s + 1.0e-5, "measured response of a node", "{name}: output {c} at {x} Hz reports {r} but measures {}+{}i", m.0, m.1);
            }
            Ok(())
        }};
    }
    match pick {
        0 | 1 => go!("afollow with equal times", true, afollow(t, t)),
        2 => go!("lowpass_hz", true, lowpass_hz(f, q)),
        3 => go!("stack of three bells", true, stacki::<U3, _, _>(|i| bell_hz(f * (1.0 + i as f32 * 0.2), q, 2.0))),
        4 => go!("bus of three lowpoles", true, busi::<U3, _, _>(|i| lowpole_hz(f * (1.0 + i as f32 * 0.3)))),
        5 => go!("branch of two", true, branchi::<U2, _, _>(|i| highpole_hz(f * (1.0 + i as f32 * 0.3)))),
        6 => go!("sum of three", true, sumi::<U3, _, _>(|i| delay(t * (1.0 + i as f32 * 0.4)))),
        7 => go!("pipe of two", true, pipei::<U2, _, _>(|i| bell_hz(f * (1.0 + i as f32 * 0.1), q, 0.5))),
        8 => go!("pan", true, pan(a)),
        9 => go!("join and split", true, join::<U3>() >> split::<U2>()),
        10 => go!("multisplit and multijoin", true, multisplit::<U2, U2>() >> multijoin::<U2, U2>()),
        11 => go!("reverse after a stack", true, (lowpole_hz(f) | pass() | dcblock()) >> reverse::<U3>()),
        12 => go!("rotate", true, rotate(a, b)),
        13 => go!("mul pair reversed", true, mul((a, b)) >> reverse::<U2>()),
        14 => go!("difference", true, pass() - lowpole_hz(f)),
        15 => go!("thru", true, !(lowpole_hz(f) | pass())),
        16 => go!("fir pair", true, fir((a, b, 0.25)) | fir((b, a))),
        17 => go!("comb with scalar", true, (pass() & delay(t) * a) * b),
        18 => go!("limiter", false, limiter(t * 4.0, t * 8.0)),
        19 => go!("stereo limiter after a stack", false, (lowpole_hz(f) | pass()) >> limiter_stereo(t * 4.0, t * 8.0)),
        20 => go!("generator", false, dc((a, b))),
        _ => go!("mixed latency", false, limiter(t * 4.0, t * 8.0) & pass()),
    }
}

fn main() {
    main_check(Check {
        id: "C11",
        rule: "a case is a unit or graph, a wrapper, a sample rate, three frequencies and an impulse position; non-trivial when a response was reported and the measured impulse response decayed within 32768 samples, so that it was compared (display: when all plotted responses are finite)",
        assumptions: &["the impulse is not the very first sample (followers start at the first input value)", "limiter, declicker, oversampler and panner state that they pretend not to alter the response and are left out", "a response is compared within 1e-4 of the L1 norm of the impulse response"],
        subs: vec![
            Sub { name: "linear_units", quick: 72000, thorough: 1000000, f: |s, c| case(s, c, false, true) },
            Sub { name: "linear_graphs", quick: 72000, thorough: 1000000, f: |s, c| case(s, c, false, false) },
            Sub { name: "any_units", quick: 36000, thorough: 500000, f: |s, c| case(s, c, true, true) },
            Sub { name: "controlled", quick: 30000, thorough: 1000000, f: controlled },
            Sub { name: "networks", quick: 40000, thorough: 1000000, f: networks },
            Sub { name: "typed", quick: 20000, thorough: 400000, f: typed },
            Sub { name: "display", quick: 20000, thorough: 400000, f: display },
            Sub { name: "any_graphs", quick: 72000, thorough: 1000000, f: |s, c| case(s, c, true, false) },
        ],
    })
}
