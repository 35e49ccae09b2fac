//! C32: rendering to waves, playing waves back, and the block adapters are sample-exact.
use fundsp::hacker as h;
use fundsp::hacker::{AudioNode, AudioUnit, BigBlockAdapter, BlockRateAdapter, Net, Setting, U1, U2, Wave};
use std::sync::Arc;
use vfcore::probe::{Probe, ProbeModel};
use vfcore::render::{all_blocks, describe_steps, gen_steps, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

fn gen_rate(src: &mut Src) -> f64 {
    match src.below(3) {
        0 => 44100.0,
        1 => *src.pick(&[8000.0, 11025.0, 22050.0, 48000.0, 96000.0]),
        _ => src.logf(100.0, 200000.0),
    }
}

/// A unit with the given inputs; the flag tells whether every schedule gives exactly the same samples.
fn gen_unit(src: &mut Src, ins: usize) -> (Un, bool, String) {
    let outs = src.size(1, 4);
    match src.below(if ins <= 2 { 10 } else { 6 }) {
        0..=4 => {
            let m = src.below(5) as u8;
            let id = src.below(1000);
            (Probe::boxed(ProbeModel::new(id, ins, outs, m)), true, format!("probe {id} mode {m} {ins}->{outs}"))
        }
        5 => {
            // A network of two probes.
            let (a, b) = (src.below(1000), src.below(1000));
            let mid = src.size(1, 3);
            let mut net = Net::new(ins, outs);
            let x = net.push(Probe::boxed(ProbeModel::new(a, ins, mid, 1)));
            let y = net.push(Probe::boxed(ProbeModel::new(b, mid, outs, 2)));
            net.pipe_input(x);
            net.pipe_all(x, y);
            net.pipe_output(y);
            (Box::new(net), true, format!("net of probes {a}, {b}"))
        }
        k => {
            let f = src.logf32(20.0, 4000.0);
            let (u, d): (Un, &str) = match (ins, k) {
                (0, 6) => (Box::new(h::noise()), "noise"),
                (0, 7) => (Box::new(h::sine_hz(f) | h::saw_hz(f)), "sine|saw"),
                (0, 8) => (Box::new(h::lfo(move |t: f64| (t * f as f64, 1.0 / (1.0 + t)))), "lfo"),
                (0, _) => (Box::new(h::noise() >> h::lowpass_hz(f, 1.0) >> h::pan(0.3)), "noise>>lowpass>>pan"),
                (1, 6) => (Box::new(h::lowpass_hz(f, 1.0)), "lowpass"),
                (1, 7) => (Box::new(h::delay(0.003) | h::noise()), "delay|noise"),
                (1, 8) => (Box::new(h::feedback(h::delay(0.001) * 0.5)), "feedback"),
                (1, _) => (Box::new(h::pass() ^ h::tick()), "pass^tick"),
                (_, 6) => (Box::new(h::rotate(0.5, 1.0)), "rotate"),
                (_, 7) => (Box::new(h::multipass::<U2>() >> h::reverse::<U2>()), "reverse"),
                (_, 8) => (Box::new(h::dcblock() | h::delay(0.002)), "dcblock|delay"),
                (_, _) => (Box::new(h::join::<U2>() >> h::highpass_hz(f, 1.0)), "join>>highpass"),
            };
            (u, false, format!("{d} f={f}"))
        }
    }
}

fn tol(exact: bool) -> f32 { if exact { 0.0 } else { 2e-5 } }

fn check_wave(w: &Wave, want: &Sig, sr: f64, exact: bool, sig: &str) -> Res {
    let n = want.first().map_or(0, |c| c.len());
    ensure!(w.channels() == want.len(), format!("{sig}-channels"), "wave has {} channels, the unit {} outputs", w.channels(), want.len());
    ensure!(w.sample_rate() == sr, format!("{sig}-rate"), "wave sample rate {}, asked for {sr}", w.sample_rate());
    ensure!(w.length() == n && w.len() == n, format!("{sig}-length"), "wave length {} ({}), expected {n}", w.length(), w.len());
    for c in 0..want.len() {
        ensure!(w.channel(c).len() == n, format!("{sig}-length"), "channel {c} has {} samples, expected {n}", w.channel(c).len());
        for i in 0..n {
            let (a, b) = (w.at(c, i), want[c][i]);
            ensure!(same(a, b) || (a - b).abs() <= tol(exact) * (1.0 + b.abs()), format!("{sig}-sample"), "channel {c} sample {i} of {n} is {a}, the unit outputs {b}");
        }
    }
    Ok(())
}

/// A duration in seconds and the number of samples it rounds to.
fn gen_duration(src: &mut Src, sr: f64) -> (f64, usize) {
    let n = match src.below(6) {
        0 => src.size(0, 3),
        1 => 64 * src.size(1, 6) + src.size(0, 2) - 1,
        _ => src.size(1, 600),
    };
    let frac = if src.bool() { 0.0 } else { src.f64(-0.49, 0.49) };
    let d = ((n as f64 + frac) / sr).max(0.0);
    (d, n)
}

fn rendering(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src);
    let (mut u, exact, d) = gen_unit(src, 0);
    let mut twin = u.clone();
    ctx.note(format!("{d} at {sr}"));
    twin.set_sample_rate(sr);
    let mut total = 0;
    // Each render continues where the last one ended.
    for _ in 0..src.size(1, 3) {
        let (dur, n) = gen_duration(src, sr);
        ctx.note(format!("render {dur} s = {n}"));
        let w = Wave::render(sr, dur, &mut *u);
        let steps = if exact { gen_steps(src, n) } else { all_blocks(n) };
        let want = render(&mut *twin, &vec![], 0, &steps);
        check_wave(&w, &want, sr, exact, "render")?;
        ensure!(close(w.duration(), n as f64 / sr, 1e-12, 1e-12), "duration", "duration {} for {n} samples", w.duration());
        total += n;
    }
    if total % 64 != 0 && total > 64 { ctx.nontrivial(); }
    Ok(())
}

fn gen_wave(src: &mut Src, sr: f64, channels: usize, n: usize) -> Wave {
    let mut w = Wave::new(0, sr);
    for _ in 0..channels {
        let seed = src.seed();
        let x: Vec<f32> = (0..n).map(|i| (rnd11(seed, i as u64) * 1024.0).round() / 1024.0).collect();
        w.push_channel(&x);
    }
    w
}
fn padded(w: &Wave, n: usize) -> Sig {
    (0..w.channels()).map(|c| (0..n).map(|i| if i < w.len() { w.at(c, i) } else { 0.0 }).collect()).collect()
}
/// Blocks as the filter must see them are not specified: exact units are compared under any schedule.
fn reference(src: &mut Src, unit: &mut dyn AudioUnit, x: &Sig, n: usize, exact: bool) -> Sig {
    let steps = if exact { gen_steps(src, n) } else { all_blocks(n) };
    render(unit, x, 0, &steps)
}

fn filtering(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src);
    let ins = src.size(1, 4);
    let (mut u, exact, d) = gen_unit(src, ins);
    let mut twin = u.clone();
    twin.set_sample_rate(sr);
    let len = match src.below(4) { 0 => src.size(0, 3), 1 => 64 * src.size(1, 5), _ => src.size(1, 500) };
    let w = gen_wave(src, sr, ins, len);
    ctx.note(format!("{d} at {sr}, wave of {len}"));
    for _ in 0..src.size(1, 2) {
        let (dur, n) = gen_duration(src, sr);
        ctx.note(format!("filter {dur} s = {n}"));
        let y = w.filter(dur, &mut *u);
        let x = padded(&w, n);
        let want = reference(src, &mut *twin, &x, n, exact);
        check_wave(&y, &want, sr, exact, "filter")?;
        if n > len && len > 0 { ctx.label("tail"); }
        if n > 64 && len > 1 { ctx.nontrivial(); }
    }
    // The source is unchanged.
    ensure!(w.len() == len && w.channels() == ins, "filter-source", "filtering changed the wave");
    Ok(())
}

/// A unit that looks ahead. Explicit delays are not latency.
fn delayed(src: &mut Src, sr: f64, ins: usize) -> (Un, String) {
    let k = if src.chance(1, 6) { 0.0 } else { src.size(1, 300) as f64 + if src.bool() { 0.0 } else { src.f64(0.1, 0.9) } };
    let t = (k / sr) as f32;
    let w = 4usize << src.below(7);
    fn id(n: usize) -> Un {
        Box::new(h::resynth::<U1, U1, _>(n, |fft: &mut h::FftWindow| { for i in 0..fft.bins() { fft.set(0, i, fft.at(0, i)); } }))
    }
    let re = || h::unit::<U1, U1>(id(w));
    match (ins, src.below(5)) {
        (0, 0) => (Box::new(h::noise() >> h::limiter(t, 0.1) >> h::delay(0.001)), format!("noise >> limiter {k} >> delay")),
        (0, 1) => (Box::new(h::lfo(|t: f64| t * 100.0) >> re() >> h::split::<U2>()), format!("lfo >> resynth {w} >> split")),
        (0, 2) => (Box::new((h::sine_hz(200.0) | h::noise()) >> (re() | h::limiter(t, 0.1))), format!("resynth {w} | limiter {k}")),
        (0, 3) => (Box::new((h::sine_hz(200.0) | h::noise()) >> h::limiter_stereo(t, 0.1)), format!("limiter_stereo {k}")),
        (0, _) => (Box::new(h::noise() >> h::delay(0.001)), format!("noise >> delay")),
        (_, 0) => (id(w), format!("resynth {w}")),
        (_, 1) => (Box::new(re() >> re()), format!("resynth {w} >> resynth")),
        (_, 2) => (Box::new(h::limiter(t, 0.1) >> h::split::<U2>() >> (h::pass() | h::delay(0.002))), format!("limiter {k} >> split >> delay")),
        (_, 3) => (Box::new(h::delay(t)), format!("delay {k}")),
        (_, _) => (Box::new(h::limiter(t, 0.1) >> h::lowpass_hz(100.0, 1.0)), format!("limiter {k} >> lowpass")),
    }
}

fn latencies(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src).max(1000.0);
    let ins = src.below(2) as usize;
    let (mut u, d) = delayed(src, sr, ins);
    let mut twin = u.clone();
    twin.set_sample_rate(sr);
    let lat = twin.latency().unwrap_or(0.0);
    let skip = lat.floor() as usize;
    let (dur, n) = gen_duration(src, sr);
    ctx.note(format!("{d} at {sr}: latency {lat}, {dur} s = {n}"));
    let m = n + skip;
    if ins == 0 {
        // The node is reset first.
        if src.bool() {
            ctx.note("used before");
            u.set_sample_rate(sr);
            let k = src.size(1, 200);
            let _ = render(&mut *u, &vec![], 0, &all_blocks(k));
        }
        let w = Wave::render_latency(sr, dur, &mut *u);
        let full = render(&mut *twin, &vec![], 0, &all_blocks(m));
        let want: Sig = full.iter().map(|c| c[skip..].to_vec()).collect();
        check_wave(&w, &want, sr, false, "render-latency")?;
    } else {
        let len = src.size(1, 400);
        let src_wave = gen_wave(src, sr, 1, len);
        let w = src_wave.filter_latency(dur, &mut *u);
        let x = padded(&src_wave, m);
        let full = render(&mut *twin, &x, 0, &all_blocks(m));
        let want: Sig = full.iter().map(|c| c[skip..].to_vec()).collect();
        check_wave(&w, &want, sr, false, "filter-latency")?;
        if d.starts_with("resynth") && !d.contains(">>") {
            // Which is the wave itself, once the windows overlap fully (a window length beyond latency).
            ctx.label("identity");
            for i in skip..n {
                let want = if i < len { src_wave.at(0, i) } else { 0.0 };
                ensure!((w.at(0, i) - want).abs() <= 1e-4, "filter-latency-identity", "sample {i} of the delayed wave is {}, the wave has {want}", w.at(0, i));
            }
        }
    }
    if skip > 0 && n > 1 { ctx.nontrivial(); }
    Ok(())
}

struct Play { x: Vec<f32>, start: usize, end: usize, looping: Option<usize>, at: usize }
impl Play {
    fn next(&mut self) -> f32 {
        if self.at >= self.end { return 0.0; }
        let v = self.x[self.at];
        self.at += 1;
        if self.at == self.end { if let Some(p) = self.looping { self.at = p; } }
        v
    }
}

fn players(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src);
    let len = match src.below(4) { 0 => src.size(0, 4), 1 => src.size(60, 70), _ => src.size(1, 300) };
    let channels = src.size(1, 3);
    let w = Arc::new(gen_wave(src, sr, channels, len));
    let count = src.size(1, 3);
    let mut units: Vec<(Un, Play)> = vec![];
    for _ in 0..count {
        let c = src.below(channels as u64) as usize;
        let x: Vec<f32> = w.channel(c).clone();
        let (start, end, whole) = if src.bool() || len == 0 { (0, len, true) } else {
            let end = src.size(0, len);
            (src.size(0, end), end, false)
        };
        let looping = if start < end && src.chance(2, 3) { Some(src.size(0, end - 1)) } else { None };
        ctx.note(format!("channel {c}, {start}..{end} of {len}, loop {looping:?}"));
        let u: Un = if whole { Box::new(h::wavech(&w, c, looping)) } else { Box::new(h::wavech_at(&w, c, start, end, looping)) };
        let u: Un = if src.chance(1, 4) { Box::new(h::unit::<h::U0, U1>(u)) } else { u };
        units.push((u, Play { x, start, end, looping, at: start }));
    }
    let mut wraps = 0;
    for _ in 0..src.size(1, 6) {
        let k = src.below(count as u64) as usize;
        let (u, m) = &mut units[k];
        match src.below(6) {
            0 => { ctx.note(format!("reset #{k}")); u.reset(); m.at = m.start; }
            1 => { *u = u.clone(); }
            2 => { let r = gen_rate(src); u.set_sample_rate(r); }
            _ => {
                let n = src.size(1, 400);
                let steps = gen_steps(src, n);
                ctx.note(format!("#{k}: {}", describe_steps(&steps)));
                let out = render(&mut **u, &vec![], 0, &steps);
                for i in 0..n {
                    let before = m.at;
                    let want = m.next();
                    if m.at <= before { wraps += 1; }
                    ensure!(same(out[0][i], want), "player", "sample {i} is {}, the wave has {want} at {before}", out[0][i]);
                }
            }
        }
    }
    if wraps > 0 && len > 0 { ctx.nontrivial(); }
    Ok(())
}

fn bigblocks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ins = if src.chance(1, 4) { src.size(5, 12) } else { src.size(0, 4) };
    let (u, exact, d) = gen_unit(src, ins);
    let mut twin = u.clone();
    let outs = u.outputs();
    let mut a = BigBlockAdapter::new(u);
    ctx.note(&d);
    ensure!(a.inputs() == ins && a.outputs() == outs && a.get_id() == twin.get_id(), "big-arity", "the adapter differs in arity or identity");
    let mut total = 0;
    let mut big = false;
    for _ in 0..src.size(1, 8) {
        match src.below(10) {
            0 => { a.reset(); twin.reset(); ctx.note("reset"); }
            1 => { let r = gen_rate(src); a.set_sample_rate(r); twin.set_sample_rate(r); ctx.note(format!("rate {r}")); }
            2 => { a = a.clone(); }
            3 => { let v = src.below(100) as f32; a.set(Setting::value(v)); twin.set(Setting::value(v)); ctx.note(format!("set {v}")); }
            op => {
                let n = if src.chance(1, 8) { src.size(0, 3000) } else { src.size(0, 200) };
                let seed = src.seed();
                let x: Sig = (0..ins).map(|c| (0..n).map(|i| (rnd11(seed ^ c as u64, i as u64) * 1024.0).round() / 1024.0).collect()).collect();
                let steps = if exact { gen_steps(src, n) } else { all_blocks(n) };
                let want = render(&mut *twin, &x, 0, &steps);
                let got = if op < 6 {
                    ctx.note(format!("render {n}"));
                    render(&mut a, &x, 0, &steps)
                } else {
                    ctx.note(format!("big {n}"));
                    if n > 64 { big = true; }
                    // Longer slices than the size asked for: the rest is untouched.
                    let extra = src.below(3) as usize;
                    let xs: Vec<Vec<f32>> = x.iter().map(|c| { let mut c = c.clone(); c.resize(n + extra, 9.0); c }).collect();
                    let mut ys: Vec<Vec<f32>> = vec![vec![77.0; n + extra]; outs];
                    {
                        let xr: Vec<&[f32]> = xs.iter().map(|c| &c[..]).collect();
                        let mut yr: Vec<&mut [f32]> = ys.iter_mut().map(|c| &mut c[..]).collect();
                        a.process_big(n, &xr, &mut yr);
                    }
                    for c in 0..outs {
                        for v in &ys[c][n..] { ensure!(*v == 77.0, "big-overrun", "a sample past the block was written"); }
                        ys[c].truncate(n);
                    }
                    ys
                };
                for c in 0..outs {
                    for i in 0..n {
                        let (p, q) = (got[c][i], want[c][i]);
                        ensure!(same(p, q) || (p - q).abs() <= tol(exact) * (1.0 + q.abs()), "big-sample", "channel {c} sample {i} of {n} is {p}, the unit outputs {q}");
                    }
                }
                total += n;
            }
        }
    }
    if big && total > 64 { ctx.nontrivial(); }
    Ok(())
}

fn blockrates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (u, exact, d) = gen_unit(src, 0);
    let mut twin = u.clone();
    let outs = u.outputs();
    let sr = gen_rate(src);
    let mut a = BlockRateAdapter::new(u);
    ensure!(a.inputs() == 0 && a.outputs() == outs && a.get_id() == twin.get_id(), "rate-arity", "the adapter differs in arity or identity");
    a.set_sample_rate(sr);
    twin.set_sample_rate(sr);
    ctx.note(format!("{d} at {sr}"));
    let mut total = 0;
    for run in 0..src.size(1, 3) {
        if run > 0 { a.reset(); twin.reset(); ctx.note("reset"); }
        // The whole run of the unit in full blocks.
        let cap = 64 * src.size(1, 8);
        let want = render(&mut *twin, &vec![], 0, &if exact { gen_steps(src, cap) } else { all_blocks(cap) });
        let mut at = 0;
        for _ in 0..src.size(1, 6) {
            let n = src.size(0, 150).min(cap - at);
            if src.chance(1, 5) { a = a.clone(); }
            let steps: Vec<Step> = gen_steps(src, n);
            ctx.note(describe_steps(&steps));
            let got = render(&mut a, &vec![], 0, &steps);
            for c in 0..outs {
                for i in 0..n {
                    let (p, q) = (got[c][i], want[c][at + i]);
                    ensure!(same(p, q) || (p - q).abs() <= tol(exact) * (1.0 + q.abs()), "rate-sample", "channel {c} sample {} is {p}, the unit outputs {q}", at + i);
                }
            }
            at += n;
        }
        total += at;
    }
    if total > 64 { ctx.nontrivial(); }
    Ok(())
}

/// One sample at a time through the mono and stereo calls, mixed with ticks and blocks.
fn accessors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ins = src.size(0, 2);
    let (mut u, exact, d) = gen_unit(src, ins);
    let outs = u.outputs();
    let fits = match ins { 0 => outs <= 2, 1 => outs == 1, _ => outs == 2 };
    if !fits { return Ok(()); }
    let sr = *src.pick(&[44100.0, 48000.0, 96000.0]);
    u.set_sample_rate(sr);
    let n = src.size(1, 200);
    let x: Sig = (0..ins).map(|c| (0..n).map(|i| rnd11(11 + c as u64, i as u64)).collect()).collect();
    let want = render(&mut *u.clone(), &x, 0, &all_blocks(n));
    ctx.note(format!("{d} {ins} to {outs} at {sr}"));
    let mut i = 0;
    let mut used = 0;
    while i < n {
        let ok = |v: f32, w: f32| same(v, w) || (v - w).abs() <= if exact { 0.0 } else { 5.0e-3 } * (1.0 + w.abs()); // Phases are rounded differently in blocks.
        match (ins, src.below(3)) {
            (0, 0) => {
                let v = u.get_mono();
                let w = if outs == 1 { want[0][i] } else { (want[0][i] + want[1][i]) * 0.5 };
                ensure!(ok(v, w) || (v - w).abs() <= 1.0e-6 * (want[0][i].abs() + want[outs - 1][i].abs()), "get-mono", "get_mono at sample {i} is {v} and not {w} in {d}");
                i += 1;
            }
            (0, 1) => {
                let v = u.get_stereo();
                let w = (want[0][i], want[outs - 1][i]);
                ensure!(ok(v.0, w.0) && ok(v.1, w.1), "get-stereo", "get_stereo at sample {i} is {v:?} and not {w:?} in {d}");
                i += 1;
            }
            (1, 0) | (1, 1) => {
                let v = u.filter_mono(x[0][i]);
                ensure!(ok(v, want[0][i]), "filter-mono", "filter_mono at sample {i} is {v} and not {} in {d}", want[0][i]);
                i += 1;
            }
            (_, 0) | (_, 1) => {
                let v = u.filter_stereo(x[0][i], x[1][i]);
                ensure!(ok(v.0, want[0][i]) && ok(v.1, want[1][i]), "filter-stereo", "filter_stereo at sample {i} is {v:?} and not {} and {} in {d}", want[0][i], want[1][i]);
                i += 1;
            }
            _ => {
                let m = src.size(1, (n - i).min(70));
                let st = gen_steps(src, m);
                let y = render(&mut *u, &x, i, &st);
                for c in 0..outs { for t in 0..m { ensure!(ok(y[c][t], want[c][i + t]), "after-accessor", "sample {} of channel {c} is {} and not {} in {d}", i + t, y[c][t], want[c][i + t]); } }
                i += m;
                used += 1;
            }
        }
    }
    // The same calls on nodes of static arity.
    let (f, g) = (src.logf32(20.0, 4000.0), src.f32(-1.0, 1.0));
    macro_rules! twin { ($node:expr, $i:ident, |$a:ident, $in:ident| $call:expr, $o:expr) => {{
        let (mut a, mut b) = ($node, $node);
        AudioNode::set_sample_rate(&mut a.0, sr);
        AudioNode::set_sample_rate(&mut b.0, sr);
        for $i in 0..n.min(20) {
            let $in = [rnd11(5, $i as u64), rnd11(6, $i as u64)];
            let mut y = [0.0f32; 2];
            let (ins, outs) = (AudioUnit::inputs(&b), AudioUnit::outputs(&b));
            AudioUnit::tick(&mut b, &$in[..ins], &mut y[..outs]);
            let $a = &mut a.0;
            let v: (f32, f32) = $call;
            let o: (f32, f32) = $o(y);
            ensure!((v.0 - o.0).abs() <= 1.0e-6 * (1.0 + o.0.abs()) && (v.1 - o.1).abs() <= 1.0e-6 * (1.0 + o.1.abs()), "node-accessor", "sample {} is {v:?} and not {o:?} in {}", $i, stringify!($node));
        }
    }} }
    match src.below(6) {
        0 => twin!(h::sine_hz(f) * g, i, |a, _x| (AudioNode::get_mono(a), 0.0), |y: [f32; 2]| (y[0], 0.0)),
        1 => twin!(h::sine_hz(f) | h::saw_hz(f), i, |a, _x| (AudioNode::get_mono(a), 0.0), |y: [f32; 2]| ((y[0] + y[1]) * 0.5, 0.0)),
        2 => twin!(h::noise() >> h::lowpole_hz(f), i, |a, _x| AudioNode::get_stereo(a), |y: [f32; 2]| (y[0], y[0])),
        3 => twin!(h::sine_hz(f) >> h::pan(g), i, |a, _x| AudioNode::get_stereo(a), |y: [f32; 2]| (y[0], y[1])),
        4 => twin!(h::highpole_hz(f) + h::dc(g), i, |a, x| (AudioNode::filter_mono(a, x[0]), 0.0), |y: [f32; 2]| (y[0], 0.0)),
        _ => twin!(h::lowpole_hz(f) | h::tick() * g, i, |a, x| AudioNode::filter_stereo(a, x[0], x[1]), |y: [f32; 2]| (y[0], y[1])),
    }
    if used > 0 && n > 8 { ctx.nontrivial(); }
    Ok(())
}

/// Renders whole recordings: lengths of up to many seconds, with durations between samples.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = gen_rate(src);
    let top = 1000usize << src.below(11);
    let n = src.size(1, top);
    let frac = match src.below(4) { 0 => 0.0, 1 => src.f64(-0.49, 0.49), 2 => 0.49, _ => -0.49 };
    let dur = ((n as f64 + frac) / sr).max(0.0);
    let len = src.size(1, n);
    let kind = src.below(5);
    let mut x = Wave::with_capacity(1, sr, len);
    for i in 0..len { x.push((i % 4093 + 1) as f32); }
    ctx.note(format!("kind {kind}: {dur} s at {sr} ({n} samples) of a wave of {len} samples"));
    if n > 20000 { ctx.nontrivial(); }
    let at = |i: usize| if i < len { (i % 4093 + 1) as f32 } else { 0.0 };
    let shared = std::sync::Arc::new(x.clone());
    let (w, gain): (Wave, f32) = match kind {
        0 => (Wave::render(sr, dur, &mut h::wavech(&shared, 0, None)), 1.0),
        1 => (Wave::render_latency(sr, dur, &mut h::wavech(&shared, 0, None)), 1.0),
        2 => (x.filter(dur, &mut (h::pass() * 2.0)), 2.0),
        3 => (x.filter_latency(dur, &mut (h::pass() * 2.0)), 2.0),
        _ => { let mut z = Wave::zero(1, sr, dur); for i in 0..n { z.set(0, i, at(i)); } (z, 1.0) }
    };
    ensure!(w.len() == n, "long-length", "{dur} s at {sr} is {} samples instead of {n} (kind {kind})", w.len());
    for i in 0..n { ensure!(w.at(0, i) == at(i) * gain, "long-contents", "sample {i} is {} instead of {} (kind {kind}, {dur} s at {sr}, wave of {len})", w.at(0, i), at(i) * gain); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C32",
        rule: "waves rendered from or filtered through probes (exact under any schedule), networks of probes and built-in units, compared with the unit's own samples (non-trivial: more than a block, not a multiple of it); latency variants: latency of at least a sample; players: at least one loop or wrap; adapters: more than a block",
        assumptions: &[
            "durations are generated away from half a sample, where the direction of rounding is unspecified",
            "start points lie at or before the end point and loop points before it",
            "built-in units are compared to 2e-5 relative, probes exactly",
        ],
        subs: vec![
            Sub { name: "rendering", f: rendering, quick: 60000, thorough: 400_000 },
            Sub { name: "filtering", f: filtering, quick: 60000, thorough: 400_000 },
            Sub { name: "latencies", f: latencies, quick: 60000, thorough: 400_000 },
            Sub { name: "players", f: players, quick: 100000, thorough: 800_000 },
            Sub { name: "bigblocks", f: bigblocks, quick: 60000, thorough: 400_000 },
            Sub { name: "long", f: long, quick: 6000, thorough: 40_000 },
            Sub { name: "accessors", f: accessors, quick: 60000, thorough: 1_000_000 },
            Sub { name: "blockrates", f: blockrates, quick: 60000, thorough: 400_000 },
        ],
    });
}
