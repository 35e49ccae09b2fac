//! C31: changing the sample rate is equivalent to building at that rate.
use fundsp::hacker as h;
use fundsp::hacker::{AudioUnit, Fade, Net, NodeId, Sequencer, U1, U2, U3};
use vfcore::probe::{Probe, ProbeModel};
use vfcore::render::*;
use vfcore::*;
use vfnodes as nodes;

type Un = Box<dyn AudioUnit>;
const RATES: &[f64] = &[44100.0, 48000.0, 22050.0, 96000.0, 32000.0, 44100.5, 192000.0];

fn unit_rates(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let graph = src.chance(1, 3);
    let (kinds, make, name): (Vec<kind::Kind>, Box<dyn Fn() -> Un>, String) = if graph {
        let ins = src.size(0, 3);
        let outs = src.size(1, 3);
        let mut next = 0;
        let g = vfgraph::gen(src, ins, outs, 3, vfgraph::Leaves::Catalogue, &mut next);
        ctx.note(g.describe());
        let net = src.chance(1, 3);
        (vec![kind::Kind::Audio; ins], Box::new(move || { let u = vfgraph::build(&g); if net { Box::new(Net::wrap(u)) } else { u } }), "graph".into())
    } else {
        let spec = nodes::gen_spec(src);
        ctx.note(spec.describe());
        let ins = nodes::build(&spec).ins;
        let name = spec.name.to_string();
        (ins, Box::new(move || nodes::build(&spec).unit), name)
    };
    if src.chance(1, 6) {
        // The default sample rate is 44.1 kHz.
        let n = if src.chance(1, 8) { src.size(200, 2000) } else { src.size(1, 200) };
        let steps = gen_steps(src, n);
        let input = gen_input(src, &kinds, n);
        ctx.note(format!("default rate; n={} steps={}", n, describe_steps(&steps)));
        if n > 8 { ctx.nontrivial(); }
        ctx.label("default rate");
        let (mut plain, mut set) = (make(), make());
        if src.bool() { plain.reset(); }
        set.set_sample_rate(44100.0);
        let a = render(&mut *plain, &input, 0, &steps);
        let b = render(&mut *set, &input, 0, &steps);
        for c in 0..a.len() {
            for i in 0..n {
                ensure!(same(a[c][i], b[c][i]), format!("default-rate {}", name), "{}: channel {} sample {}: {} when no sample rate was set, {} when set to 44100", name, c, i, a[c][i], b[c][i]);
            }
        }
        return Ok(());
    }
    let last = *src.pick(RATES);
    let k = src.size(1, 4);
    // A unit that has not been played needs no reset.
    let unplayed = src.chance(1, 5);
    let mut used = make();
    let mut hist = String::new();
    let mut prev = 44100.0;
    let mut changed = false;
    for _ in 0..k {
        let r = *src.pick(RATES);
        used.set_sample_rate(r);
        if src.bool() { used.allocate(); }
        if src.chance(1, 4) { used.reset(); }
        changed |= r != prev;
        prev = r;
        let n = if unplayed { 0 } else { src.size(0, 200) };
        let steps = gen_steps(src, n);
        let input = gen_input(src, &kinds, n);
        render(&mut *used, &input, 0, &steps);
        hist.push_str(&format!("{}:{} ", r, n));
    }
    changed |= last != prev;
    let n = if src.chance(1, 8) { src.size(200, 2000) } else { src.size(1, 200) };
    let steps = gen_steps(src, n);
    let input = gen_input(src, &kinds, n);
    ctx.note(format!("rates {} then {} and reset; n={} steps={}", hist, last, n, describe_steps(&steps)));
    if changed && n > 8 { ctx.nontrivial(); }
    // Either order of rate change and reset before rendering.
    used.set_sample_rate(last);
    if !unplayed { used.reset(); }
    let mut fresh = make();
    fresh.set_sample_rate(last);
    let a = render(&mut *fresh, &input, 0, &steps);
    let b = render(&mut *used, &input, 0, &steps);
    for c in 0..a.len() {
        for i in 0..n {
            ensure!(same(a[c][i], b[c][i]), format!("rate-history-matters {}", name), "{}: channel {} sample {}: built at {} gives {}, after other rates {}", name, c, i, last, a[c][i], b[c][i]);
        }
    }
    Ok(())
}

fn rp(outs: usize) -> Un {
    Probe::boxed(ProbeModel::new(1, 0, outs, 4))
}

/// Containers made from rate-reporting probes: every contained unit must report the container's rate.
fn composites(src: &mut Src, ctx: &mut Ctx) -> Res {
    let depth = src.size(0, 2);
    let mut factor = 1.0f64;
    fn wrap(src: &mut Src, ctx: &mut Ctx, u: Un, factor: &mut f64) -> Un {
        use fundsp::prelude::unit;
        use fundsp::hacker::U0;
        let k = src.below(26);
        let one = |u: Un| unit::<U0, U1>(u);
        let r11 = || Probe::boxed(ProbeModel::new(1, 1, 1, 4));
        ctx.note(format!("wrap{}", k));
        match k {
            0 => Box::new(Net::wrap(u)),
            1 => Box::new(unit::<U0, U1>(u) + unit::<U0, U1>(rp(1)) * 0.0),
            2 => Box::new(h::dc(1.0) * unit::<U0, U1>(u)),
            3 => { *factor *= 2.0; Box::new(h::oversample(unit::<U0, U1>(u))) }
            4 => Box::new(h::dc(1.0) >> h::resample(unit::<U0, U1>(u))),
            5 => Box::new(unit::<U0, U1>(u) >> h::pass()),
            6 => Box::new(unit::<U0, U1>(u) & h::dc(0.0)),
            7 => { let mut s = Sequencer::new(true, 1); s.push(0.0, 100.0, Fade::Smooth, 0.0, 0.0, u); Box::new(s) }
            8 => { let (_f, b) = h::Slot::new(u); Box::new(b) }
            9 => Box::new(h::BlockRateAdapter::new(u)),
            10 => Box::new(-unit::<U0, U1>(u) * -1.0),
            11 => Box::new(h::busi::<U2, _, _>(|_| one(u.clone())) * 0.5),
            12 => Box::new(h::sumi::<U2, _, _>(|_| one(u.clone())) * 0.5),
            13 => Box::new(h::stacki::<U2, _, _>(|_| one(u.clone())) >> h::join::<U2>()),
            14 => Box::new(h::branchi::<U3, _, _>(|_| one(u.clone())) >> h::join::<U3>()),
            15 => Box::new((one(u) | h::dc(1.0)) >> h::pass() * h::pass()),
            16 => Box::new((h::dc(1.0) | one(u)) >> h::pass() * h::pass()),
            17 => Box::new((one(u) ^ h::dc(0.0)) >> h::pass() + h::pass()),
            18 => Box::new((h::dc(0.0) ^ one(u)) >> h::pass() - h::pass() * -1.0 * -1.0 * -1.0),
            19 => Box::new(one(u) >> h::feedback(h::pass() * 0.0 & h::pass())  >> h::mul(1.0) * 0.0 + one(rp(1)) * *factor as f32),
            20 => Box::new(one(u) * 0.0 + (h::dc(0.0) >> h::feedback2(unit::<U1, U1>(r11()), h::mul(0.0))) * *factor as f32),
            21 => Box::new(one(u) * 0.0 + (h::dc(0.0) >> h::feedback2(h::mul(0.0), unit::<U1, U1>(r11())) * 0.0) + one(rp(1)) * *factor as f32),
            22 => Box::new(one(u) * 0.0 + (h::dc(0.0) >> h::pipei::<U3, _, _>(|_| unit::<U1, U1>(r11()))) * *factor as f32),
            23 => Box::new(one(u) * 0.0 + (h::dc((0.0, 0.0)) >> h::fdn::<U2, _>(h::stacki::<U2, _, _>(|_| unit::<U1, U1>(r11()))) >> h::join::<U2>()) * *factor as f32),
            24 => Box::new(one(u) * 0.0 + (h::dc(0.0) >> !unit::<U1, U1>(r11())) * *factor as f32),
            _ => Box::new(unit::<U0, U1>(u) >> h::update(h::pass(), 0.01, |_, _, _| ())),
        }
    }
    let mut u = rp(1);
    if src.bool() { u.set_sample_rate(11025.0); }
    for _ in 0..=depth {
        u = wrap(src, ctx, u, &mut factor);
        if src.chance(1, 4) { u.set_sample_rate(*src.pick(RATES)); }
    }
    let r = *src.pick(RATES);
    u.set_sample_rate(r);
    if src.bool() { u.reset(); }
    if src.bool() { u.allocate(); }
    if src.chance(1, 3) { u = u.clone(); }
    ctx.note(format!("rate {}", r));
    if depth > 0 { ctx.nontrivial(); }
    let n = 200 + 64;
    let steps = if src.bool() { all_ticks(n) } else { gen_steps(src, n) };
    let o = render(&mut *u, &vec![], 0, &steps);
    // After any settling (half-band filter, resampler) the output is the rate itself.
    let want = r * factor / 1.0e6;
    let got = o[0][n - 1] as f64;
    ensure!((got - want).abs() < 2.0e-3 * want.max(0.01), "composite-rate", "rate inside is {} instead of {}", got * 1.0e6, want * 1.0e6);
    Ok(())
}

/// Random operator graphs of probes that report their rates, against the reference interpreter.
fn graph_rates(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let (ins, outs) = (src.size(0, 3), src.size(1, 3));
    let mut next = 0;
    let mut g = vfgraph::gen(src, ins, outs, 3, vfgraph::Leaves::Probes, &mut next);
    g.report_rates();
    ctx.note(g.describe());
    let mut u: Un = if src.chance(1, 4) { Box::new(vfgraph::build_net(&g, src)) } else { vfgraph::build(&g) };
    let mut e = vfgraph::Eval::new(&g);
    let k = src.size(1, 3);
    for _ in 0..k {
        let r = *src.pick(RATES);
        u.set_sample_rate(r);
        // Networks keep their rate in single precision.
        e.set_rate(r);
        if src.chance(1, 4) { u.reset(); e.reset(); }
        let n = src.size(1, 70);
        let steps = gen_steps(src, n);
        let input = gen_input(src, &vec![kind::Kind::Audio; ins], n);
        let a = e.run(&input, 0, n, outs);
        let b = render(&mut *u, &input, 0, &steps);
        if let Some((c, i, x, y)) = diff(&a, &b, 1.0e-4 * (1.0 + peak(&a))) {
            return fail("graph-rate", format!("channel {} sample {}: {} expected at rate {}, got {}: {}", c, i, x, r, y, g.describe()));
        }
    }
    if g.size() > 1 { ctx.nontrivial(); }
    Ok(())
}

/// Network edits in any order with rate changes.
fn net_rates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let outs = 4;
    let mut net = Net::new(0, outs);
    let mut ids: Vec<Option<NodeId>> = vec![None; outs];
    let mut rate = 44100.0;
    let k = src.size(1, 14);
    let mut kinds = 0u32;
    let backend_at = src.size(0, 20);
    let mut backend = None;
    for step in 0..k {
        if step == backend_at { backend = Some(net.backend()); ctx.note("backend"); }
        let c = src.below(outs as u64) as usize;
        let mut p = rp(1);
        if src.bool() { p.set_sample_rate(*src.pick(RATES)); }
        let op = src.below(10);
        kinds |= 1 << op;
        match (op, ids[c]) {
            (0, _) => { rate = *src.pick(RATES); net.set_sample_rate(rate); ctx.note(format!("rate {}", rate)); }
            (1, Some(id)) => { net.replace(id, p); ctx.note(format!("replace {}", c)); }
            (2, Some(id)) => { net.crossfade(id, if src.bool() { Fade::Smooth } else { Fade::Power }, src.f32(0.0, 0.004), p); ctx.note(format!("crossfade {}", c)); }
            (3, Some(id)) => { net.remove(id); ids[c] = None; ctx.note(format!("remove {}", c)); }
            (4, _) => { let id = net.fade_in(Fade::Smooth, src.f32(0.0, 0.002), p); net.connect_output(id, 0, c); ids[c] = Some(id); ctx.note(format!("fade_in {}", c)); }
            (5, _) => { net.reset(); ctx.note("reset"); }
            (6, _) => if let Some(b) = &mut backend { net.commit(); render(b, &vec![], 0, &all_blocks(src.size(1, 100))); ctx.note("commit"); } else { render(&mut net, &vec![], 0, &all_blocks(src.size(1, 100))); ctx.note("render") },
            (7, _) => if let Some(_) = &mut backend { net.commit(); ctx.note("commit-only"); },
            (8, _) => if backend.is_none() { net = net.clone(); },
            (_, _) => { let id = net.push(p); net.connect_output(id, 0, c); ids[c] = Some(id); ctx.note(format!("push {}", c)); }
        }
    }
    if kinds.count_ones() >= 3 && kinds & 1 == 1 { ctx.nontrivial(); }
    let n = 192000 / 1000 * 13;
    let o = if let Some(b) = &mut backend {
        net.commit();
        render(b, &vec![], 0, &all_blocks(n))
    } else {
        render(&mut net, &vec![], 0, &all_blocks(n))
    };
    for c in 0..outs {
        let want = if ids[c].is_some() { (rate / 1.0e6) as f32 } else { 0.0 };
        ensure!(o[c][n - 1] == want, "net-rate", "unit feeding output {} runs at {} but the network is at {}", c, o[c][n - 1] as f64 * 1.0e6, rate);
    }
    // Expressions over networks bring both operands to one rate when the result is set.
    let mut e = if src.bool() { Net::wrap(rp(1)) | net.clone() } else { net.clone() | Net::wrap(rp(1)) };
    let r = *src.pick(RATES);
    e.set_sample_rate(r);
    let o = render(&mut e, &vec![], 0, &all_blocks(n));
    for c in 0..o.len() {
        let v = o[c][n - 1];
        ensure!(v == 0.0 || v == (r / 1.0e6) as f32, "net-expression-rate", "unit runs at {} but the combined network is at {}", v as f64 * 1.0e6, r);
    }
    Ok(())
}

fn seq_rates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s = Sequencer::new(src.bool(), 1);
    let k = src.size(1, 10);
    let mut kinds = 0u32;
    let mut rate = 44100.0;
    let mut split = None;
    let mut n_events = 0u32;
    for _ in 0..k {
        let op = src.below(6);
        kinds |= 1 << op;
        let mut p = rp(1);
        if src.bool() { p.set_sample_rate(*src.pick(RATES)); }
        match op {
            0 => { if split.is_none() { rate = *src.pick(RATES); s.set_sample_rate(rate); ctx.note(format!("rate {}", rate)); } }
            1 | 2 => { s.push(0.0, 1000.0, Fade::Smooth, 0.0, 0.0, p); n_events += 1; ctx.note("push"); }
            3 => { s.push_relative(0.0, 1000.0, Fade::Smooth, 0.0, 0.0, p); n_events += 1; ctx.note("push_relative"); }
            4 => { if split.is_none() && n_events > 0 { split = Some(s.backend()); ctx.note("backend"); } }
            _ => { let m = src.size(1, 70); match &mut split { None => { render(&mut s, &vec![], 0, &all_blocks(m)); } Some(b) => { render(b, &vec![], 0, &all_blocks(m)); } } ctx.note(format!("render {}", m)); }
        }
    }
    if kinds & 1 == 1 && n_events > 1 { ctx.nontrivial(); }
    let n = 70;
    let o = match &mut split { None => render(&mut s, &vec![], 0, &all_blocks(n)), Some(b) => render(b, &vec![], 0, &all_blocks(n)) };
    let mut want = 0.0f32;
    for _ in 0..n_events { want += (rate / 1.0e6) as f32; }
    ensure!((o[0][n - 1] - want).abs() < 1.0e-4 * want.max(0.01), "sequencer-rate", "{} events at rate {} sum to {} instead of {}", n_events, rate, o[0][n - 1], want);
    Ok(())
}

/// A slot carries every unit it has picked up (playing, being faded in, waiting) over to a new rate.
fn slot_rates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut slot, mut back) = h::Slot::new(rp(2));
    let mut rate = *src.pick(RATES);
    back.set_sample_rate(rate);
    let mut changed = false;
    let mut waiting = 0usize;
    for _ in 0..src.size(1, 8) {
        if src.chance(2, 3) {
            let t = src.size(1, 600);
            let mut p = rp(2);
            p.set_sample_rate(rate);
            slot.set(if src.bool() { Fade::Smooth } else { Fade::Power }, t as f64 / rate, p);
            ctx.note(format!("set over {t}"));
            waiting += t;
        }
        let n = src.size(1, 150);
        render(&mut back, &vec![], 0, &gen_steps(src, n));
        ctx.note(format!("play {n}"));
        if src.bool() {
            let r = *src.pick(RATES);
            if r != rate && waiting > 0 { changed = true; }
            rate = r;
            back.set_sample_rate(rate);
            ctx.note(format!("rate {rate}"));
        }
    }
    if changed { ctx.nontrivial(); }
    // Fade times are given in seconds at the rate of the request; at most ten times as many samples at another rate.
    let n = waiting * 10 + 700;
    let o = render(&mut back, &vec![], 0, &all_blocks(n));
    for c in 0..2 {
        let want = (rate / 1.0e6) as f32 + c as f32;
        ensure!(o[c][n - 1] == want, "slot-rate", "the unit of the slot runs at {} but the slot is at {}", (o[c][n - 1] - c as f32) as f64 * 1.0e6, rate);
    }
    Ok(())
}

/// Parameters of a unit at a time scale: with `k` = 2 everything happens twice as fast.
struct Z { k: f64, b: f64, p: Vec<f64> }
impl Z {
    fn lin(&self, i: usize, lo: f64, hi: f64) -> f32 { (lo + (hi - lo) * self.p[i]) as f32 }
    fn log(&self, i: usize, lo: f64, hi: f64) -> f32 { (lo * (hi / lo).powf(self.p[i])) as f32 }
    fn hz(&self, i: usize) -> f32 { self.log(i, 50.0 * self.b, 5000.0 * self.b) * self.k as f32 }
    fn t(&self, i: usize, lo: f64, hi: f64) -> f32 { self.log(i, lo, hi) / self.k as f32 }
    fn c(&self, i: usize, n: usize) -> usize { ((self.p[i] * n as f64) as usize).min(n - 1) }
    fn sh(&self, i: usize) -> h::Adaptive<h::Tanh> { h::Adaptive::new(self.t(i, 0.001, 0.05), h::Tanh(self.lin(i, 0.5, 3.0))) }
}
#[derive(Clone, Copy)]
enum In { A, F, T(f64, f64), R(f64, f64) }
type S = fn(&Z) -> (Vec<In>, Un);
fn u(ins: Vec<In>, x: impl AudioUnit + 'static) -> (Vec<In>, Un) { (ins, Box::new(x)) }

/// Units whose only notions of time are their parameters and inputs in seconds and Hertz.
const SCALED: &[(&str, S)] = &[
    ("sine", |_| u(vec![In::F], h::sine().phase(0.25))),
    ("sine_hz", |z| u(vec![], h::sine_hz(z.hz(0)))),
    ("ramp", |_| u(vec![In::F], h::ramp().phase(0.125))),
    ("poly_saw", |_| u(vec![In::F], h::poly_saw())),
    ("poly_square", |_| u(vec![In::F], h::poly_square())),
    ("poly_pulse", |_| u(vec![In::F, In::R(0.1, 0.9)], h::poly_pulse())),
    ("rossler", |_| u(vec![In::R(20.0, 400.0)], (h::pass() * 1.0) >> h::rossler())),
    ("lorenz", |_| u(vec![In::R(20.0, 200.0)], (h::pass() * 1.0) >> h::lorenz())),
    ("hold", |z| u(vec![In::A, In::F], h::hold(z.lin(0, 0.0, 1.0)))),
    ("hold_hz", |z| u(vec![In::A], h::hold_hz(z.hz(1), z.lin(0, 0.0, 1.0)))),
    ("atomic_synth", |z| {
        let w: Vec<f32> = (0..32).map(|i| ((i * 7) % 32) as f32 / 32.0).collect();
        let mut s = h::AtomicSynth::<f32>::new(std::sync::Arc::new(h::AtomicTable::new(&w)));
        s.set_interpolation(if z.c(0, 2) == 0 { h::Interpolation::Linear } else { h::Interpolation::Cubic });
        u(vec![In::F], h::An(s))
    }),
    ("pluck", |z| u(vec![In::A], h::pluck(z.log(0, 200.0, 2000.0) * z.k as f32, z.lin(1, 0.2, 0.9).powf(z.k as f32), z.lin(2, 0.0, 1.0)))),
    ("butterpass", |_| u(vec![In::A, In::F], h::butterpass())),
    ("butterpass_hz", |z| u(vec![In::A], h::butterpass_hz(z.hz(0)))),
    ("lowpole", |_| u(vec![In::A, In::F], h::lowpole())),
    ("lowpole_hz", |z| u(vec![In::A], h::lowpole_hz(z.hz(0)))),
    ("highpole", |_| u(vec![In::A, In::F], h::highpole())),
    ("highpole_hz", |z| u(vec![In::A], h::highpole_hz(z.hz(0)))),
    ("dcblock_hz", |z| u(vec![In::A], h::dcblock_hz(z.hz(0) * 0.1))),
    ("resonator", |_| u(vec![In::A, In::F, In::R(1.0, 100.0)], h::resonator())),
    ("resonator_hz", |z| u(vec![In::A], h::resonator_hz(z.hz(0), z.log(1, 1.0, 100.0)))),
    ("moog", |_| u(vec![In::A, In::F, In::R(0.0, 0.8)], h::moog())),
    ("moog_hz", |z| u(vec![In::A], h::moog_hz(z.hz(0), z.lin(1, 0.0, 0.8)))),
    ("rez", |z| if z.c(0, 2) == 0 { u(vec![In::A, In::F, In::R(0.0, 0.9)], h::lowrez()) } else { u(vec![In::A, In::F, In::R(0.0, 0.9)], h::bandrez()) }),
    ("rez_hz", |z| if z.c(0, 2) == 0 { u(vec![In::A], h::lowrez_hz(z.hz(1), z.lin(2, 0.0, 0.9))) } else { u(vec![In::A], h::bandrez_hz(z.hz(1), z.lin(2, 0.0, 0.9))) }),
    ("svf", |z| { let v = vec![In::A, In::F, In::R(0.4, 6.0)]; match z.c(0, 6) { 0 => u(v, h::lowpass()), 1 => u(v, h::highpass()), 2 => u(v, h::bandpass()), 3 => u(v, h::notch()), 4 => u(v, h::peak()), _ => u(v, h::allpass()) } }),
    ("svf_gain", |z| { let v = vec![In::A, In::F, In::R(0.4, 6.0), In::R(0.3, 3.0)]; match z.c(0, 3) { 0 => u(v, h::bell()), 1 => u(v, h::lowshelf()), _ => u(v, h::highshelf()) } }),
    ("svf_hz", |z| { let (v, f, q, g) = (vec![In::A], z.hz(1), z.log(2, 0.4, 6.0), z.log(3, 0.3, 3.0)); match z.c(0, 9) { 0 => u(v, h::lowpass_hz(f, q)), 1 => u(v, h::highpass_hz(f, q)), 2 => u(v, h::bandpass_hz(f, q)), 3 => u(v, h::notch_hz(f, q)), 4 => u(v, h::peak_hz(f, q)), 5 => u(v, h::allpass_hz(f, q)), 6 => u(v, h::bell_hz(f, q, g)), 7 => u(v, h::lowshelf_hz(f, q, g)), _ => u(v, h::highshelf_hz(f, q, g)) } }),
    ("morph", |_| u(vec![In::A, In::F, In::R(0.4, 6.0), In::R(-1.0, 1.0)], h::morph())),
    ("dirty", |z| { let v = vec![In::A, In::F, In::R(0.4, 3.0)]; match z.c(0, 3) { 0 => u(v, h::dlowpass(z.sh(1))), 1 => u(v, h::dhighpass(z.sh(1))), _ => u(v, h::dresonator(z.sh(1))) } }),
    ("dirty_hz", |z| { let (v, f, q, g) = (vec![In::A], z.hz(2), z.log(3, 0.4, 3.0), z.log(4, 0.3, 3.0)); match z.c(0, 4) { 0 => u(v, h::dlowpass_hz(z.sh(1), f, q)), 1 => u(v, h::dhighpass_hz(z.sh(1), f, q)), 2 => u(v, h::dresonator_hz(z.sh(1), f, q)), _ => u(v, h::dbell_hz(z.sh(1), f, q, g)) } }),
    ("fb", |z| { let v = vec![In::A, In::F, In::R(0.4, 3.0)]; match z.c(0, 3) { 0 => u(v, h::flowpass(z.sh(1))), 1 => u(v, h::fhighpass(z.sh(1))), _ => u(v, h::fresonator(z.sh(1))) } }),
    ("fb_hz", |z| { let (v, f, q, g) = (vec![In::A], z.hz(2), z.log(3, 0.4, 3.0), z.log(4, 0.3, 3.0)); match z.c(0, 4) { 0 => u(v, h::flowpass_hz(z.sh(1), f, q)), 1 => u(v, h::fhighpass_hz(z.sh(1), f, q)), 2 => u(v, h::fresonator_hz(z.sh(1), f, q)), _ => u(v, h::fbell_hz(z.sh(1), f, q, g)) } }),
    ("delay", |z| u(vec![In::A], h::delay(z.t(0, 0.0005, 0.01)))),
    ("tap", |z| u(vec![In::A, In::T(0.001, 0.004)], h::tap(z.t(0, 0.0005, 0.001), z.t(1, 0.004, 0.005)))),
    ("tap_linear", |z| u(vec![In::A, In::T(0.001, 0.004)], h::tap_linear(z.t(0, 0.0005, 0.001), z.t(1, 0.004, 0.005)))),
    ("multitap", |z| u(vec![In::A, In::T(0.001, 0.004), In::T(0.001, 0.004)], h::multitap::<U2>(z.t(0, 0.0005, 0.001), z.t(1, 0.004, 0.005)))),
    ("allnest", |z| u(vec![In::A, In::R(-0.8, 0.8)], h::allnest(h::delay(z.t(0, 0.0005, 0.004))))),
    ("feedback", |z| u(vec![In::A], h::feedback(h::delay(z.t(0, 0.0005, 0.004)) * 0.7))),
    ("feedback2", |z| u(vec![In::A], h::feedback2(h::lowpole_hz(z.hz(0)), h::delay(z.t(1, 0.0005, 0.004)) * 0.7))),
    ("feedback_unit", |z| u(vec![In::A], h::FeedbackUnit::new(z.t(0, 0.0005, 0.004) as f64, Box::new(h::lowpole_hz(z.hz(1)) * 0.7)))),
    ("fdn", |z| { let t = z.t(0, 0.0005, 0.003); u(vec![In::A; 2], h::fdn::<U2, _>(h::stacki::<U2, _, _>(move |i| h::delay(t * (i as f32 + 1.0)) * 0.6))) }),
    ("oversample", |z| u(vec![In::A, In::F], h::oversample(h::lowpole_hz(z.hz(0)) | h::sine()))),
    ("resample", |z| u(vec![In::R(0.2, 2.0)], h::resample(h::sine_hz(z.hz(0))))),
    ("declick", |z| u(vec![In::A], h::declick_s(z.t(0, 0.0005, 0.01)))),
    ("follow", |z| u(vec![In::A], h::follow(z.t(0, 0.0005, 0.02)))),
    ("afollow", |z| u(vec![In::A], h::afollow(z.t(0, 0.0005, 0.02), z.t(1, 0.0005, 0.02)))),
    ("limiter", |z| u(vec![In::R(-3.0, 3.0)], h::limiter(z.t(0, 0.0005, 0.005), z.t(1, 0.0005, 0.02)))),
    ("limiter_stereo", |z| u(vec![In::R(-3.0, 3.0), In::R(-3.0, 3.0)], h::limiter_stereo(z.t(0, 0.0005, 0.005), z.t(1, 0.0005, 0.02)))),
    ("meter", |z| if z.c(1, 2) == 0 { u(vec![In::A], h::meter(h::Meter::Peak(z.t(0, 0.0005, 0.02) as f64))) } else { u(vec![In::A], h::meter(h::Meter::Rms(z.t(0, 0.0005, 0.02) as f64))) }),
    ("adaptive", |z| u(vec![In::A], h::shape(z.sh(0)))),
    ("envelope", |z| { let (i, k, a) = (z.t(0, 0.0005, 0.01) as f64, z.k, z.lin(1, 10.0, 900.0) as f64); u(vec![], h::An(h::Envelope::<f64, _, _>::new(i, move |t: f64| (t * k * a).sin()))) }),
    ("update", |z| { let (k, a) = (z.k as f32, z.lin(1, 100.0, 9000.0)); u(vec![], h::update(h::sine_hz(1000.0 * k), z.t(0, 0.0005, 0.01), move |t, dt, x| h::AudioNode::set(x, h::Setting::value(300.0 * k + (t + dt) * k * k * a).left()))) }),
    // No notion of time at all: the same samples at any rate.
    ("noise", |_| u(vec![], h::noise())),
    ("mls", |_| u(vec![], h::mls())),
    ("pink", |_| u(vec![], h::pink())),
    ("pinkpass", |_| u(vec![In::A], h::pinkpass())),
    ("allpole", |_| u(vec![In::A, In::R(0.3, 3.0)], h::allpole())),
    ("biquad", |z| u(vec![In::A], h::biquad(z.lin(0, -0.9, 0.9), 0.4, z.lin(1, -1.0, 1.0), z.lin(2, -1.0, 1.0), 0.3))),
    ("fir", |z| u(vec![In::A], h::fir((z.lin(0, -1.0, 1.0), z.lin(1, -1.0, 1.0), 0.3)))),
    ("tick", |_| u(vec![In::A], h::tick())),
    ("impulse", |_| u(vec![], h::impulse::<U2>())),
    ("pan", |_| u(vec![In::A, In::R(-1.0, 1.0)], h::panner())),
    ("shape", |z| u(vec![In::A], h::shape(h::Tanh(z.lin(0, 0.5, 3.0))))),
    ("resynth", |_| u(vec![In::A], h::resynth::<U1, U1, _>(32, |w| for i in 0..w.bins() { w.set(0, i, w.at(0, i)) }))),
    ("wavech", |z| { let w = std::sync::Arc::new(nodes::test_wave(1, 100, 44100.0, 3)); u(vec![], h::wavech(&w, 0, Some(z.c(0, 50)))) }),
];

/// A unit that is twice as fast at twice the sample rate produces the same samples.
fn scaling(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (name, make) = *src.pick(SCALED);
    ctx.label(name);
    let p: Vec<f64> = (0..5).map(|_| src.below(1025) as f64 / 1024.0).collect();
    let base = *src.pick(&[44100.0, 48000.0, 22050.0, 32000.0, 16000.0]);
    // The constants 44100 and the like must not matter, so one side always runs far from them.
    let k = *src.pick(&[2.0, 0.5, 4.0, 0.25, 8.0]);
    let n = src.size(1, 600);
    let steps = gen_steps(src, n);
    ctx.note(format!("{name} {p:?} at {base} Hz, and {k} times as fast at {} Hz; {}", base * k, describe_steps(&steps)));
    let (z1, z2) = (Z { k: 1.0, b: base / 44100.0, p: p.clone() }, Z { k, b: base / 44100.0, p });
    let ((ins, mut a), (_, mut b)) = (make(&z1), make(&z2));
    a.set_sample_rate(base);
    b.set_sample_rate(base * k);
    let mut x: Sig = vec![];
    let mut y: Sig = vec![];
    let limit = base / 44100.0;
    for kind in &ins {
        let hold = src.size(1, 200);
        let (mut u1, mut u2) = (vec![], vec![]);
        let mut v = 0.0f32;
        for i in 0..n {
            let (every, f) = match kind { In::A => (1, 1.0), In::F => (hold, k as f32), In::T(..) => (hold, 1.0 / k as f32), In::R(lo, _) => (if *lo < -2.0 { 1 } else { hold }, 1.0) };
            if i % every == 0 {
                let r = src.u01();
                v = match kind { In::A => 2.0 * r - 1.0, In::F => 30.0 * 100.0f64.powf(r) * limit, In::T(lo, hi) | In::R(lo, hi) => lo + (hi - lo) * r } as f32;
            }
            u1.push(v);
            u2.push(if name == "lorenz" || name == "rossler" { v * k as f32 } else { v * f });
        }
        x.push(u1);
        y.push(u2);
    }
    if n > 16 { ctx.nontrivial(); }
    let r1 = render(&mut *a, &x, 0, &steps);
    let r2 = render(&mut *b, &y, 0, &steps);
    for c in 0..r1.len() {
        for i in 0..n {
            ensure!(close(r1[c][i] as f64, r2[c][i] as f64, 2.0e-5, 2.0e-4), format!("scaling {name}"), "channel {c} sample {i} is {} at {base} Hz, but {} when everything is {k} times as fast", r1[c][i], r2[c][i]);
        }
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C31",
        rule: "a case is a unit/composite with a history of sample rates and rendering, or a container history; non-trivial when the rate really changes (units), the container nests (composites) or at least three kinds of operations including a rate change occur (nets, sequencers)",
        assumptions: &["sample rates are representable in 32-bit floats, as networks store them", "slots receive units already prepared by the editing side and are excluded for units sent later"],
        subs: vec![
            Sub { name: "unit_rates", quick: 300000, thorough: 12000000, f: unit_rates },
            Sub { name: "composites", quick: 60000, thorough: 2000000, f: composites },
            Sub { name: "graph_rates", quick: 100000, thorough: 3000000, f: graph_rates },
            Sub { name: "net_rates", quick: 60000, thorough: 2000000, f: net_rates },
            Sub { name: "seq_rates", quick: 60000, thorough: 2000000, f: seq_rates },
            Sub { name: "slot_rates", quick: 20000, thorough: 500000, f: slot_rates },
            Sub { name: "scaling", quick: 60000, thorough: 1000000, f: scaling },
        ],
    })
}
