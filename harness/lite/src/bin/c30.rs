//! C30: shared controls, meters, timers, update functions, snoops and rings report what passed.
use fundsp::hacker as h;
use fundsp::hacker::{An, AudioNode, AudioUnit, Frame, Meter, Net, Ring, Shared, Snoop, SnoopBackend, U0, U1, U2, U3};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vfcore::kind::Kind;
use vfcore::render::{describe_steps, diff, gen_input, gen_steps, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

// ---------------------------------------------------------------- meters

fn gen_meter(src: &mut Src) -> Meter {
    match src.below(5) {
        0 => Meter::Sample,
        1 | 2 => Meter::Peak(src.logf(1e-5, 3.0)),
        _ => Meter::Rms(src.logf(1e-5, 3.0)),
    }
}
fn mname(m: Meter) -> String {
    match m { Meter::Sample => "sample".into(), Meter::Peak(t) => format!("peak({t})"), Meter::Rms(t) => format!("rms({t})") }
}
fn gen_rate(src: &mut Src) -> f64 {
    if src.chance(1, 3) { 44100.0 } else { src.logf(100.0, 200000.0).round() }
}
fn gen_signal(src: &mut Src, n: usize) -> Vec<f32> {
    let gain = src.logf32(1e-4, 1e4);
    let gain = if src.chance(1, 2) { 1.0 } else { gain };
    let mut s = gen_input(src, &[Kind::Audio], n);
    for x in s[0].iter_mut() { *x *= gain; }
    s.remove(0)
}

/// Level measurement in double precision, with the error the single precision may have gathered.
#[derive(Clone)]
struct Model { meter: Meter, half: f64, state: f64, err: f64 }
impl Model {
    fn new(meter: Meter) -> Self {
        let mut m = Model { meter, half: 0.0, state: 0.0, err: 0.0 };
        m.rate(44100.0);
        m
    }
    fn rate(&mut self, sr: f64) {
        self.half = match self.meter { Meter::Sample => 0.0, Meter::Peak(t) | Meter::Rms(t) => (-(std::f64::consts::LN_2) / (t * sr)).exp() };
    }
    fn reset(&mut self) { self.state = 0.0; self.err = 0.0; }
    fn step(&mut self, x: f32) {
        let x = x as f64;
        // A couple of roundings per sample, in whatever order the recurrence is evaluated.
        const E: f64 = 3.0e-7;
        match self.meter {
            Meter::Sample => self.state = x,
            Meter::Peak(_) => {
                let held = self.state * self.half;
                // The decay coefficient itself is rounded.
                self.err = self.err * self.half + self.state * E + 1e-30;
                if x.abs() > held { self.state = x.abs(); if x.abs() > held + self.err { self.err = 0.0; } } else { self.state = held; }
            }
            Meter::Rms(_) => {
                self.err = self.err * self.half + self.state * E + x * x * E * 2.0 + 1e-37;
                self.state = self.state * self.half + x * x * (1.0 - self.half);
            }
        }
    }
    /// Range of acceptable levels.
    fn range(&self) -> (f64, f64) {
        match self.meter {
            Meter::Sample => (self.state, self.state),
            Meter::Peak(_) => (self.state - self.err, self.state + self.err),
            Meter::Rms(_) => ((self.state - self.err).max(0.0).sqrt() * (1.0 - 2e-7), (self.state + self.err).sqrt() * (1.0 + 2e-7)),
        }
    }
}

fn meters(src: &mut Src, ctx: &mut Ctx) -> Res {
    let meter = gen_meter(src);
    let mut a = Model::new(meter);
    let shared = h::shared(0.25);
    // A meter and a monitor see the same signal.
    let mut node: Un = Box::new(h::meter(meter));
    let mut mon: Un = Box::new(h::monitor(&shared, meter));
    let mut total = 0;
    for seg in 0..src.size(1, 4) {
        if src.chance(1, 2) {
            let sr = gen_rate(src);
            ctx.note(format!("rate {sr}"));
            node.set_sample_rate(sr);
            mon.set_sample_rate(sr);
            a.rate(sr);
        }
        if seg > 0 && src.chance(1, 4) {
            ctx.note("reset");
            node.reset();
            mon.reset();
            a.reset();
        }
        if src.chance(1, 6) {
            node = node.clone();
            mon = mon.clone();
        }
        let n = src.size(1, 400);
        total += n;
        let x = vec![gen_signal(src, n)];
        let steps = gen_steps(src, n);
        ctx.note(format!("{n} samples: {}", describe_steps(&steps)));
        let out = render(&mut *node, &x, 0, &steps);
        let mut m = a.clone();
        for i in 0..n {
            m.step(x[0][i]);
            let (lo, hi) = m.range();
            let y = out[0][i] as f64;
            ensure!(y >= lo && y <= hi, "meter", "{} at {i}: {y}, expected {lo}..{hi}", mname(meter));
        }
        // The monitor: pass-through exact and shared value as of the last sample of every step.
        let mut at = 0;
        for s in &steps {
            let parts: Vec<Step> = match s { Step::Tick(k) => vec![Step::Tick(1); *k], b => vec![*b] };
            for p in parts {
                let o = render(&mut *mon, &x, at, &[p]);
                for i in 0..p.len() {
                    ensure!(same(o[0][i], x[0][at + i]), "monitor-pass", "{} monitor passed {} for {}", mname(meter), o[0][i], x[0][at + i]);
                    a.step(x[0][at + i]);
                }
                at += p.len();
                if p.len() > 0 {
                    let (lo, hi) = a.range();
                    let y = shared.value() as f64;
                    ensure!(y >= lo && y <= hi, "monitor", "{} monitor after sample {at}: {y}, expected {lo}..{hi}", mname(meter));
                }
            }
        }
    }
    if !matches!(meter, Meter::Sample) && total >= 50 { ctx.nontrivial(); }
    Ok(())
}

/// The documented meaning of the timescale, measured without the recurrence.
fn timescale(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src);
    let k = src.size(1, 3000);
    let t = k as f64 / sr;
    let level = src.logf32(0.01, 10.0);
    let rms = src.bool();
    ctx.note(format!("half in {k} samples at {sr}, rms {rms}, level {level}"));
    let mut u: Un = Box::new(h::meter(if rms { Meter::Rms(t) } else { Meter::Peak(t) }));
    u.set_sample_rate(sr);
    let neg = src.bool();
    let v = if neg { -level } else { level };
    let n = if rms { k } else { k + 1 };
    let x = vec![(0..n).map(|i| if rms || i == 0 { v } else { 0.0 }).collect::<Vec<f32>>()];
    let steps = gen_steps(src, n);
    let y = render(&mut *u, &x, 0, &steps)[0][n - 1] as f64;
    let want = if rms { level as f64 * 0.5f64.sqrt() } else { level as f64 * 0.5 };
    ensure!(close(y, want, 0.0, 1e-4 + 2e-7 * k as f64), "timescale", "after {k} samples of the halving time the level is {y}, expected {want}");
    if k > 1 { ctx.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- shared variables

enum Node {
    /// Reads: output channel c is function of the shared variables.
    Reader { unit: Un, f: fn(&[f32], usize, usize, usize) -> f32, a: usize, b: usize, name: &'static str },
    Timer { unit: Un, s: usize, time: f64, rate: f64, name: &'static str },
    Monitor { unit: Un, s: usize, model: Model },
}

fn gen_reader(src: &mut Src, sh: &[Shared]) -> Node {
    let a = src.below(sh.len() as u64) as usize;
    let b = src.below(sh.len() as u64) as usize;
    let (unit, f, name): (Un, fn(&[f32], usize, usize, usize) -> f32, _) = match src.below(9) {
        0 => (Box::new(h::var(&sh[a])), |v, a, _b, _c| v[a], "var"),
        1 => (Box::new(h::var_fn(&sh[a], |x| x * 2.0)), |v, a, _b, _c| v[a] * 2.0, "var_fn"),
        2 => (Box::new(h::var_fn(&sh[a], |x| (x, -x, x * 0.5))), |v, a, _b, c| v[a] * [1.0, -1.0, 0.5][c], "var_fn3"),
        3 => (Box::new(h::var(&sh[a]) | h::var(&sh[b])), |v, a, b, c| if c == 0 { v[a] } else { v[b] }, "var|var"),
        4 => (Box::new(h::var(&sh[a]) + h::var(&sh[b])), |v, a, b, _c| v[a] + v[b], "var+var"),
        5 => (Box::new((h::var(&sh[a]) | h::var(&sh[b])) >> h::reverse::<U2>()), |v, a, b, c| if c == 1 { v[a] } else { v[b] }, "reversed"),
        6 => {
            let mut net = Net::new(0, 2);
            let x = net.push(Box::new(h::var(&sh[a])));
            let y = net.push(Box::new(h::var_fn(&sh[b], |x| -x)));
            net.connect_output(x, 0, 1);
            net.connect_output(y, 0, 0);
            (Box::new(net), |v, a, b, c| if c == 1 { v[a] } else { -v[b] }, "net")
        }
        7 => {
            let mut net = Net::new(0, 1);
            let x = net.push(Box::new(h::var(&sh[a])));
            net.connect_output(x, 0, 0);
            (Box::new(net.backend()), |v, a, _b, _c| v[a], "backend")
        }
        _ => (Box::new(h::unit::<U0, U1>(Box::new(h::var(&sh[a]))) - h::var(&sh[b])), |v, a, b, _c| v[a] - v[b], "unit-var"),
    };
    Node::Reader { unit, f, a, b, name }
}

fn gen_timer(src: &mut Src, sh: &[Shared]) -> Node {
    let s = src.below(sh.len() as u64) as usize;
    let (unit, name): (Un, _) = match src.below(8) {
        0 => (Box::new(h::timer(&sh[s])), "timer"),
        1 => (Box::new(h::timer(&sh[s]) | h::lfo(|t| t)), "timer|lfo"),
        2 => (Box::new(h::pass() | h::timer(&sh[s])), "pass|timer"),
        3 => {
            let mut net = Net::new(0, 0);
            net.push(Box::new(h::timer(&sh[s])));
            (Box::new(net), "net")
        }
        4 => (Box::new(h::noise() >> (h::lowpass_hz(1000.0, 1.0) | h::timer(&sh[s]))), "filter|timer"),
        5 => (Box::new(h::oversample(h::pass() | h::timer(&sh[s]))), "oversample"),
        6 => (Box::new(!h::timer(&sh[s])), "!timer"),
        _ => (Box::new(h::unit::<U0, U1>(Box::new(h::timer(&sh[s]) | h::noise())) >> h::pass()), "unit"),
    };
    Node::Timer { unit, s, time: 0.0, rate: 44100.0, name }
}

fn sharing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ns = src.size(1, 4);
    let sh: Vec<Shared> = (0..ns).map(|_| h::shared(0.0)).collect();
    let alias: Vec<Shared> = sh.iter().map(|s| s.clone()).collect();
    let mut val = vec![0.0f32; ns];
    for i in 0..ns {
        let v = src.f32(-10.0, 10.0);
        sh[i].set_value(v);
        val[i] = v;
    }
    let mut nodes: Vec<Node> = Vec::new();
    let mut writes = 0;
    let mut reads = 0;
    let count = src.size(3, 30);
    for _ in 0..count {
        let op = src.below(12);
        let i = src.below(ns as u64) as usize;
        match op {
            0 | 1 if nodes.len() < 8 => {
                let node = match src.below(4) {
                    0 => {
                        let meter = gen_meter(src);
                        ctx.note(format!("monitor -> {i}"));
                        Node::Monitor { unit: Box::new(h::monitor(&sh[i], meter)), s: i, model: Model::new(meter) }
                    }
                    1 => gen_timer(src, &sh),
                    _ => gen_reader(src, &sh),
                };
                match &node {
                    // A new timer shows zero.
                    Node::Timer { s, name, .. } => {
                        ctx.note(format!("{name} -> {s}"));
                        ensure!(sh[*s].value() == 0.0, "timer-new", "a new timer shows {}", sh[*s].value());
                        val[*s] = 0.0;
                    }
                    Node::Reader { name, a, b, .. } => ctx.note(format!("{name} <- {a},{b}")),
                    _ => (),
                }
                nodes.push(node);
            }
            2 | 3 | 4 => {
                let v = if src.chance(1, 8) { *src.pick(&[0.0f32, -0.0, f32::INFINITY, 1e-42, f32::MAX]) } else { src.f32(-1e3, 1e3) };
                let tail = src.bool();
                if tail { alias[i].set(v) } else { sh[i].set_value(v) }
                ctx.note(format!("set {i}={v}"));
                val[i] = v;
                writes += 1;
            }
            5 if !nodes.is_empty() => {
                let k = src.below(nodes.len() as u64) as usize;
                match &mut nodes[k] {
                    Node::Reader { unit, .. } => unit.reset(),
                    Node::Timer { unit, s, time, .. } => {
                        unit.reset();
                        *time = 0.0;
                        ensure!(sh[*s].value() == 0.0, "timer-reset", "a reset timer shows {}", sh[*s].value());
                        val[*s] = 0.0;
                    }
                    Node::Monitor { unit, model, .. } => { unit.reset(); model.reset(); }
                }
                ctx.note(format!("reset #{k}"));
            }
            6 if !nodes.is_empty() => {
                let k = src.below(nodes.len() as u64) as usize;
                let sr = gen_rate(src);
                ctx.note(format!("#{k} rate {sr}"));
                match &mut nodes[k] {
                    Node::Reader { unit, .. } => unit.set_sample_rate(sr),
                    Node::Timer { unit, rate, .. } => { unit.set_sample_rate(sr); *rate = sr; }
                    Node::Monitor { unit, model, .. } => { unit.set_sample_rate(sr); model.rate(sr); }
                }
            }
            7 if !nodes.is_empty() => {
                // A clone shares the variable.
                let k = src.below(nodes.len() as u64) as usize;
                ctx.note(format!("clone #{k}"));
                match &mut nodes[k] {
                    Node::Reader { unit, name, .. } => if *name != "backend" { *unit = unit.clone() },
                    Node::Timer { unit, .. } | Node::Monitor { unit, .. } => *unit = unit.clone(),
                }
            }
            _ if !nodes.is_empty() => {
                let k = src.below(nodes.len() as u64) as usize;
                let n = src.size(1, 150);
                let steps = gen_steps(src, n);
                ctx.note(format!("#{k} renders {}", describe_steps(&steps)));
                match &mut nodes[k] {
                    Node::Reader { unit, f, a, b, name } => {
                        let out = render(&mut **unit, &vec![], 0, &steps);
                        for c in 0..out.len() {
                            let want = f(&val, *a, *b, c);
                            for j in 0..n {
                                ensure!(same(out[c][j], want) || (want.is_nan() && out[c][j].is_nan()), "reader", "{name} of variables {a}, {b} holding {val:?} outputs {} at sample {j} of channel {c}, expected {want}", out[c][j]);
                            }
                        }
                        if writes > 0 { reads += 1; }
                    }
                    Node::Timer { unit, s, time, rate, name } => {
                        let x: Sig = (0..unit.inputs()).map(|_| vec![0.5; n]).collect();
                        let mut at = 0;
                        for st in &steps {
                            let _ = render(&mut **unit, &x, at, &[*st]);
                            at += st.len();
                            *time += st.len() as f64 / *rate;
                            let got = sh[*s].value();
                            ensure!(close(got as f64, *time, 1e-12, 3e-7), "timer", "{name} shows {got} at stream time {time}");
                        }
                        val[*s] = sh[*s].value();
                        reads += 1;
                    }
                    Node::Monitor { unit, s, model } => {
                        let x = vec![gen_signal(src, n)];
                        let out = render(&mut **unit, &x, 0, &steps);
                        ensure!(diff(&out, &x, 0.0).is_none(), "monitor-pass", "a monitor changed the signal");
                        for v in &x[0] { model.step(*v); }
                        let got = sh[*s].value();
                        let (lo, hi) = model.range();
                        ensure!(got as f64 >= lo && got as f64 <= hi, "monitor", "{} shows {got}, expected {lo}..{hi}", mname(model.meter));
                        val[*s] = got;
                        reads += 1;
                    }
                }
            }
            _ => (),
        }
        for j in 0..ns {
            ensure!(same(sh[j].value(), val[j]) && same(alias[j].value(), val[j]), "shared", "variable {j} holds {} and its clone {}, last written {}", sh[j].value(), alias[j].value(), val[j]);
        }
    }
    if writes >= 1 && reads >= 1 { ctx.nontrivial(); }
    Ok(())
}

/// A control thread writes an increasing sequence while another thread renders:
/// every value output is one that was written, in order, and the last one arrives.
fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(50, 2000) as u32;
    let s = h::shared(0.0);
    let time = h::shared(0.0);
    let blocks = src.bool();
    let size = src.size(1, 64);
    ctx.note(format!("{n} writes, blocks {blocks} of {size}"));
    let mut unit: Un = Box::new((h::var(&s) | h::var_fn(&s, |x| (x, x + 0.5))) | h::timer(&time));
    let (tx, watch) = (s.clone(), time.clone());
    let done = Arc::new(AtomicBool::new(false));
    let flag = done.clone();
    let writer = std::thread::spawn(move || {
        let mut last = 0.0;
        let mut monotone = true;
        for i in 1..=n {
            tx.set_value(i as f32);
            let t = watch.value();
            if t < last { monotone = false; }
            last = t;
            if i % 16 == 0 { std::thread::yield_now(); }
        }
        flag.store(true, Ordering::SeqCst);
        monotone
    });
    let mut last = vec![0.0f32; 3];
    let mut distinct = 0;
    loop {
        let stop = done.load(Ordering::SeqCst);
        let step = if blocks { Step::Block(size) } else { Step::Tick(size) };
        let out = render(&mut *unit, &vec![], 0, &[step]);
        for c in 0..3 {
            let off = if c == 2 { 0.5 } else { 0.0 };
            for v in &out[c] {
                ensure!((v - off).fract() == 0.0 && *v - off <= n as f32 && *v >= last[c], "torn", "channel {c} reads {v} after {}", last[c]);
                if c == 0 && *v != last[c] { distinct += 1; }
                last[c] = *v;
            }
        }
        if stop {
            for c in 0..3 {
                ensure!(*out[c].last().unwrap() == n as f32 + if c == 2 { 0.5 } else { 0.0 }, "lost-write", "the last write never arrived on channel {c}");
            }
            break;
        }
    }
    ensure!(writer.join().unwrap(), "timer-back", "the timer went back");
    if distinct >= 2 { ctx.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- update functions

fn updates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = if src.chance(1, 3) { 44100.0 } else { src.logf(1000.0, 96000.0).round() };
    let dt = if src.chance(1, 6) { 0.0 } else { src.logf(0.1 / sr, 400.0 / sr) as f32 };
    let log: Arc<Mutex<Vec<(f32, f32)>>> = Arc::new(Mutex::new(Vec::new()));
    let l = log.clone();
    // The enclosed node outputs a constant that the update function replaces by the index of the update.
    let mut unit: Un = Box::new(h::update(h::dc(-1.0), dt, move |t, d, x: &mut h::Constant<U1>| {
        let mut l = l.lock().unwrap();
        l.push((t, d));
        x.set(h::Setting::value(l.len() as f32));
    }));
    unit.set_sample_rate(sr);
    let mut n_updates = 0;
    ctx.note(format!("dt {dt} s at {sr}"));
    for run in 0..src.size(1, 3) {
        if run > 0 { unit.reset(); log.lock().unwrap().clear(); }
        if src.chance(1, 5) { unit = unit.clone(); }
        let n = src.size(1, 800);
        let steps = gen_steps(src, n);
        ctx.note(describe_steps(&steps));
        let mut at = 0usize;
        let mut prev: Option<f64> = None;
        for st in &steps {
            let parts: Vec<Step> = match st { Step::Tick(k) => vec![Step::Tick(1); *k], b => vec![*b] };
            for p in parts {
                if p.len() == 0 { continue; }
                let before = log.lock().unwrap().len();
                let out = render(&mut *unit, &vec![], 0, &[p]);
                let calls: Vec<(f32, f32)> = log.lock().unwrap()[before..].to_vec();
                let now = at as f64 / sr;
                let end = (at + p.len()) as f64 / sr;
                let tol = 1e-6 + end * 1e-4;
                for (t, d) in &calls {
                    // Called with current time, and the true time since the last call.
                    ensure!(*t as f64 >= now - tol && (*t as f64) < end + tol, "time", "update called with time {t} in {now}..{end}");
                    match prev {
                        None => ensure!(*t == 0.0 && *d == 0.0, "first", "first update at time {t} with interval {d}"),
                        Some(q) => {
                            ensure!(close(*d as f64, *t as f64 - q, tol, 1e-3), "interval", "update at {t} after {q} was told interval {d}");
                            ensure!(*d as f64 >= dt as f64 - tol, "early", "update after {d}, asked for {dt}");
                        }
                    }
                    prev = Some(*t as f64);
                }
                // Approximately dt: late by a block at most.
                let p0 = match prev { Some(p0) => p0, None => return fail("none", "no update at time zero") };
                ensure!(end - p0 <= dt as f64 + 2.0 * p.len().max(64) as f64 / sr + tol, "late", "no update from {p0} to {end}, asked for {dt}");
                // The updated node is what is heard.
                let k = log.lock().unwrap().len() as f32;
                ensure!(*out[0].last().unwrap() == k, "heard", "node outputs {} after update {k}", out[0].last().unwrap());
                at += p.len();
            }
        }
        n_updates += log.lock().unwrap().len();
    }
    if n_updates >= 2 { ctx.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- snoops

fn tag(i: u64) -> f32 { (i % 16_000_000) as f32 + 1.0 }

fn snoops(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = match src.below(4) { 0 => src.size(1, 8), 1 => src.size(60, 70), 2 => src.size(1, 1000), _ => src.size(1, 40000) };
    let (mut front, back) = h::snoop(cap);
    let mut back: Un = if src.chance(1, 4) { Box::new(h::unit::<U1, U1>(Box::new(back))) } else { Box::new(back) };
    ensure!(front.capacity() >= cap && front.capacity() > 0, "capacity", "asked for {cap}, got {}", front.capacity());
    ctx.note(format!("capacity {cap}"));
    let mut sent = 0u64; // Tag of the next sample.
    let mut partial: Vec<f32> = vec![];
    let mut queue: std::collections::VecDeque<Vec<f32>> = Default::default(); // Buffers known to be in the channel.
    let mut maybe: Vec<Vec<f32>> = vec![]; // Buffers beyond capacity, in order, which may have been dropped.
    let mut recv: Vec<f32> = vec![];
    let mut full = false;
    let big = src.chance(1, 40);
    for _ in 0..src.size(1, 14) {
        match src.below(8) {
            0..=3 => {
                let n = if big { src.size(1, 40000) } else { src.size(1, 2000) };
                let x: Sig = vec![(0..n as u64).map(|i| tag(sent + i)).collect()];
                let steps = gen_steps(src, n);
                ctx.note(format!("{n} samples"));
                let out = render(&mut *back, &x, 0, &steps);
                ensure!(diff(&out, &x, 0.0).is_none(), "snoop-pass", "the snoop changed the signal");
                for v in &x[0] {
                    partial.push(*v);
                    if partial.len() == 64 {
                        let b = std::mem::take(&mut partial);
                        if queue.len() < 1024 && maybe.is_empty() { queue.push_back(b) } else { maybe.push(b); full = true; }
                    }
                }
                sent += n as u64;
            }
            4 if src.chance(1, 2) => {
                ctx.note("reset");
                back.reset();
                partial.clear();
            }
            5 => {
                let k = src.size(1, 5);
                for _ in 0..k {
                    match front.get() {
                        Some(b) => {
                            let v: Vec<f32> = (0..b.len()).map(|i| b.at(i)).collect();
                            ensure!(b.size() == b.len() && b.len() > 0, "snoop-size", "sizes {} and {}", b.size(), b.len());
                            recv.extend(&v);
                            take(&mut queue, &mut maybe, &v)?;
                        }
                        None => ensure!(queue.is_empty(), "snoop-lost", "no buffer where {} are pending", queue.len()),
                    }
                }
            }
            _ => {
                let before = front.total();
                front.update();
                let got = (front.total() - before) as usize;
                ctx.note(format!("update: {got}"));
                let pend: usize = queue.iter().map(|b| b.len()).sum();
                let more: usize = maybe.iter().map(|b| b.len()).sum();
                ensure!(got >= pend && got <= pend + more, "snoop-lost", "update brought {got} samples where {pend} are pending (and {more} beyond capacity)");
                // What is visible: the latest samples.
                let all: Vec<f32> = queue.drain(..).flatten().collect();
                let tail: Vec<f32> = (0..got.min(front.capacity())).rev().map(|i| front.at(i)).collect();
                if maybe.is_empty() {
                    recv.extend(&all);
                } else if got == pend {
                    recv.extend(&all);
                    maybe.clear();
                } else {
                    // Which of the rest came is unknown beyond what is visible.
                    recv.extend(&all);
                    let skip = recv.len();
                    recv.extend(std::iter::repeat(0.0).take(got - pend));
                    let l = recv.len();
                    for (j, v) in tail.iter().enumerate() {
                        let p = l - tail.len() + j;
                        if p >= skip { recv[p] = *v; }
                    }
                    maybe.clear();
                }
            }
        }
        ensure!(front.total() == recv.len() as u64, "snoop-total", "total is {}, received {}", front.total(), recv.len());
        let seen = front.capacity().min(recv.len());
        for i in 0..seen {
            let want = recv[recv.len() - 1 - i];
            ensure!(same(front.at(i), want), "snoop-at", "sample {i} back is {}, expected {want} (received {}, capacity {})", front.at(i), recv.len(), front.capacity());
        }
        for i in seen..front.capacity().min(seen + 100) {
            ensure!(front.at(i) == 0.0, "snoop-early", "sample {i} back is {} where {} were received", front.at(i), recv.len());
        }
    }
    if full { ctx.label("overflow"); }
    if recv.len() >= 128 { ctx.nontrivial(); }
    Ok(())
}

fn take(queue: &mut std::collections::VecDeque<Vec<f32>>, maybe: &mut Vec<Vec<f32>>, v: &Vec<f32>) -> Res {
    if let Some(q) = queue.pop_front() {
        ensure!(&q == v, "snoop-order", "received {:?}.. where {:?}.. was next", &v[..2], &q[..2]);
        return Ok(());
    }
    // Something sent when the channel was full: dropped or not, order is kept.
    while !maybe.is_empty() {
        if &maybe.remove(0) == v { return Ok(()); }
    }
    fail("snoop-order", format!("received {:?}.. which is not pending", &v[..2]))
}

/// Audio thread renders while another thread polls.
fn snoop_threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(64, 60000);
    let n = n / 64 * 64;
    let (mut front, back) = h::snoop(src.size(1, 4096));
    let steps = gen_steps(src, n);
    let poll = src.bool();
    ctx.note(format!("{n} samples, get {poll}"));
    let done = Arc::new(AtomicBool::new(false));
    let flag = done.clone();
    let audio = std::thread::spawn(move || {
        let mut back: An<SnoopBackend> = back;
        let x: Sig = vec![(0..n as u64).map(tag).collect()];
        let out = render(&mut back, &x, 0, &steps);
        flag.store(true, Ordering::SeqCst);
        diff(&out, &x, 0.0).is_none()
    });
    let mut got: Vec<f32> = vec![];
    loop {
        let stop = done.load(Ordering::SeqCst);
        if poll {
            while let Some(b) = front.get() { for i in 0..b.len() { got.push(b.at(i)); } }
        } else {
            front.update();
            let seen = (front.total() as usize).min(front.capacity());
            // The visible samples are consecutive: nothing was dropped (under 1024 buffers in all).
            for i in 0..seen {
                let want = tag(front.total() - 1 - i as u64);
                ensure!(same(front.at(i), want), "snoop-race", "sample {i} back is {}, expected {want}", front.at(i));
            }
        }
        if stop { break; }
        std::thread::yield_now();
    }
    ensure!(audio.join().unwrap(), "snoop-pass", "the snoop changed the signal");
    ensure!(front.total() == n as u64, "snoop-lost", "{n} samples went in, {} came out", front.total());
    if poll {
        for (i, v) in got.iter().enumerate() {
            ensure!(same(*v, tag(i as u64)), "snoop-race", "sample {i} is {v}");
        }
    }
    if n >= 640 { ctx.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- rings

fn rings(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = match src.below(3) { 0 => src.size(1, 5), 1 => src.size(1, 100), _ => src.size(1, 3000) };
    let (tx, ring) = Ring::<U3>::new(cap);
    let mut unit: Un = match src.below(3) {
        0 => Box::new(ring),
        1 => Box::new(h::unit::<U0, U3>(Box::new(ring))),
        _ => Box::new(ring >> h::multipass::<U3>()),
    };
    ctx.note(format!("capacity {cap}"));
    let mut next = 0u64;
    let mut pending: std::collections::VecDeque<u64> = Default::default();
    let mut passed = 0;
    let mut under = false;
    for _ in 0..src.size(2, 20) {
        if src.bool() {
            let k = src.size(1, cap + 2);
            let mut refused = 0;
            for _ in 0..k {
                let f: Frame<f32, U3> = [tag(next), -tag(next), tag(next) * 0.5].into();
                match tx.try_send(f) {
                    Ok(()) => pending.push_back(next),
                    Err(_) => {
                        ensure!(pending.len() >= cap, "ring-refused", "a frame was refused at {} of {cap} pending", pending.len());
                        refused += 1;
                    }
                }
                next += 1;
            }
            ctx.note(format!("send {k} ({refused} refused)"));
        } else {
            let n = src.size(1, 200);
            let steps = gen_steps(src, n);
            ctx.note(format!("render {n}"));
            let out = render(&mut *unit, &vec![], 0, &steps);
            for i in 0..n {
                match pending.pop_front() {
                    Some(t) => {
                        passed += 1;
                        for (c, m) in [1.0f32, -1.0, 0.5].iter().enumerate() {
                            ensure!(same(out[c][i], tag(t) * m), "ring-order", "channel {c} is {}, expected {}", out[c][i], tag(t) * m);
                        }
                    }
                    None => {
                        under = true;
                        for c in 0..3 { ensure!(out[c][i] == 0.0, "ring-underrun", "underrun outputs {}", out[c][i]); }
                    }
                }
            }
        }
    }
    if under { ctx.label("underrun"); }
    if passed >= 3 { ctx.nontrivial(); }
    Ok(())
}

fn ring_threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = src.size(1, 500);
    let n = src.size(10, 5000) as u64;
    let (tx, mut ring) = Ring::<U2>::new(cap);
    let size = src.size(1, 64);
    let blocks = src.bool();
    ctx.note(format!("{n} frames through {cap}, {size} at a time, blocks {blocks}"));
    let sent = Arc::new(AtomicU64::new(0));
    let s2 = sent.clone();
    let stop = Arc::new(AtomicBool::new(false));
    let st2 = stop.clone();
    let producer = std::thread::spawn(move || {
        for i in 0..n {
            loop {
                if st2.load(Ordering::SeqCst) { return; }
                if tx.try_send([tag(i), -tag(i)].into()).is_ok() { break; }
                std::thread::yield_now();
            }
            s2.fetch_add(1, Ordering::SeqCst);
        }
    });
    let mut next = 0u64;
    let mut idle = 0;
    let mut r: Res = Ok(());
    while next < n && r.is_ok() {
        let known = sent.load(Ordering::SeqCst);
        let step = if blocks { Step::Block(size) } else { Step::Tick(size) };
        let out = render(&mut ring, &vec![], 0, &[step]);
        let before = next;
        for i in 0..size {
            let v = out[0][i];
            if v == 0.0 && out[1][i] == 0.0 { continue; }
            if !same(v, tag(next)) || !same(out[1][i], -tag(next)) {
                r = fail("ring-race", format!("frame ({v}, {}) where {} was next", out[1][i], tag(next)));
                break;
            }
            next += 1;
        }
        if r.is_ok() && next < known.min(before + size as u64) { r = fail("ring-lost", format!("{known} frames had been sent, only {next} came")); }
        idle = if next == before { idle + 1 } else { 0 };
        if idle > 50 { std::thread::yield_now(); }
        if idle > 50_000_000 { r = fail("ring-lost", "frames stopped coming"); }
    }
    stop.store(true, Ordering::SeqCst);
    let _ = producer.join();
    if n >= 100 { ctx.nontrivial(); }
    r
}

/// Unused items that must exist with these shapes.
#[allow(dead_code)]
fn shapes(s: &Snoop) -> u64 { s.total() + <SnoopBackend as AudioNode>::ID + rnd11(1, 1) as u64 }

fn main() {
    main_check(Check {
        id: "C30",
        rule: "meters: random signals, meters, rates, resets and schedules against a double precision recurrence with tracked rounding (non-trivial: peak or rms over at least 50 samples); sharing: histories over 1-4 variables with readers, timers and monitors in graphs (at least one write and one read); threads: at least two distinct values seen; updates: at least two updates; snoops: at least two buffers received; rings: at least three frames passed",
        assumptions: &[
            "shared values are read and written once per block: the order of reads and writes inside a block is not observable",
            "a snoop's channel holds 1024 buffers of 64 samples; what is sent beyond that may be dropped",
            "thread checks sample the interleavings the scheduler produces; their oracles hold for every interleaving",
        ],
        subs: vec![
            Sub { name: "meters", f: meters, quick: 60000, thorough: 600_000 },
            Sub { name: "timescale", f: timescale, quick: 4000, thorough: 100_000 },
            Sub { name: "sharing", f: sharing, quick: 300000, thorough: 600_000 },
            Sub { name: "threads", f: threads, quick: 300, thorough: 10_000 },
            Sub { name: "updates", f: updates, quick: 30000, thorough: 200_000 },
            Sub { name: "snoops", f: snoops, quick: 12000, thorough: 100_000 },
            Sub { name: "snoop-threads", f: snoop_threads, quick: 300, thorough: 10_000 },
            Sub { name: "rings", f: rings, quick: 30000, thorough: 200_000 },
            Sub { name: "ring-threads", f: ring_threads, quick: 300, thorough: 10_000 },
        ],
    });
}
