//! C25: envelopes follow their function; live ADSR stays within its stages.
use fundsp::hacker as h;
use fundsp::hacker32 as h32;
use fundsp::hacker::{An, AttoHash, AudioUnit, Envelope, EnvelopeIn, Frame, Setting, U0, U1, U2, U3};
use std::sync::{Arc, Mutex};
use vfcore::render::{gen_steps, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
/// Evaluations of the function: time, inputs, outputs.
type Log = Arc<Mutex<Vec<(f64, Vec<f32>, Vec<f64>)>>>;

#[derive(Clone, Debug)]
struct Fun { a: f64, b: f64, c: f64, w: f64, kind: u64 }
impl Fun {
    fn gen(src: &mut Src) -> Fun { Fun { a: src.f64(-1.0, 1.0), b: src.f64(-1.0, 1.0), c: src.f64(-2.0, 2.0), w: src.logf(0.1, 200.0), kind: src.below(4) } }
    fn at(&self, t: f64, x: f64) -> f64 {
        let v = match self.kind {
            0 => self.a + self.b * t,
            1 => self.a + self.b * (t * self.w).sin(),
            2 => if (t * self.w).fract() < 0.5 { self.a } else { self.b },
            _ => self.a * (-t * self.w).exp() + self.b,
        };
        v + self.c * x
    }
}

fn near_ulp(t: f64, single: bool) -> f64 { if single { t.abs() * 1.2e-7 } else { t.abs() * 1.0e-12 } }

fn piecewise(ctx: &mut Ctx, what: &str, y: &Sig, pts: &[(f64, Vec<f32>, Vec<f64>)], start: f64, skip_before: f64, sr: f64, single: bool) -> Res {
    let n = y[0].len();
    let mut k = 0;
    let mut compared = 0;
    for i in 0..n {
        let t = start + i as f64 / sr;
        while k + 2 < pts.len() && pts[k + 1].0 <= t { k += 1; }
        ensure!(k + 1 < pts.len(), "points", "{}: only {} function evaluations by sample {}", what, pts.len(), i);
        let (t0, t1) = (pts[k].0, pts[k + 1].0);
        if t0 < skip_before { continue; }
        // Right after the last evaluation the next one may not have been made yet.
        if t > t1 + near_ulp(t1, single) + 1.0e-9 { return fail("points", format!("{}: sample {} at {} s is beyond the last evaluation at {} s", what, i, t, t1)); }
        compared += 1;
        for c in 0..y.len() {
            let (v0, v1) = (pts[k].2[c], pts[k + 1].2[c]);
            let w = v0 + (v1 - v0) * (t - t0) / (t1 - t0);
            // The value is accumulated in single precision along the segment.
            let len = (t1 - t0) * sr;
            let mut tol = (v0.abs() + v1.abs()) * 6.0e-8 * (4.0 + len) + (v1 - v0).abs() / (t1 - t0) * (2.0 * near_ulp(t1, single) + 1.0e-9) + 1.0e-7;
            // At a corner rounding may choose either side.
            if k > 0 && t - t0 < near_ulp(t0, single) + 1.0e-9 { let (tp, vp) = (pts[k - 1].0, pts[k - 1].2[c]); tol += (v0 - vp).abs() / (t0 - tp) * (2.0 * near_ulp(t1, single) + 1.0e-9) + (v0.abs() + vp.abs()) * 6.0e-8 * (4.0 + (t0 - tp) * sr); }
            if k + 2 < pts.len() && t1 - t < near_ulp(t1, single) + 1.0e-9 { let (tn, vn) = (pts[k + 2].0, pts[k + 2].2[c]); tol += (vn - v1).abs() / (tn - t1) * (2.0 * near_ulp(t1, single) + 1.0e-9) + vn.abs() * 2.5e-7; }
            ensure!((y[c][i] as f64 - w).abs() <= tol, what, "sample {} of channel {} ({} s) is {}, the function interpolates to {} there (from {} at {} s to {} at {} s), tolerance {}", i, c, t, y[c][i], w, v0, t0, v1, t1, tol);
        }
    }
    if compared > 0 { ctx.nontrivial(); }
    Ok(())
}

fn check_intervals(what: &str, pts: &[(f64, Vec<f32>, Vec<f64>)], from: usize, interval: f64, sr: f64, single: bool) -> Res {
    for k in from..pts.len() {
        let d = pts[k].0 - pts[k - 1].0;
        let e = 2.0 * near_ulp(pts[k].0, single) + 1.0e-9 + interval * 1.0e-6;
        ensure!(d >= 0.75 * interval - e && d <= (1.25 * interval).max(1.0 / sr) + e, "interval", "{}: evaluations {} s apart at {} s, the average interval is {} s (sample rate {})", what, d, pts[k].0, interval, sr);
    }
    Ok(())
}

/// Evaluations of the latest run from zero, without repetitions.
fn points(log: &Log) -> Vec<(f64, Vec<f32>, Vec<f64>)> {
    let l = log.lock().unwrap();
    let s = l.iter().rposition(|p| p.0 == 0.0).unwrap_or(0);
    let mut v = l[s..].to_vec();
    v.dedup_by(|a, b| a.0 == b.0);
    v
}

fn gen_interval(src: &mut Src) -> f64 { match src.below(4) { 0 => src.logf(1.0e-6, 0.2), 1 => src.logf(1.0e-4, 0.01), _ => 0.002 } }
const RATES: &[f64] = &[44100.0, 48000.0, 96000.0, 22050.0, 8000.0, 192000.0, 44100.0, 1000.0, 100.0];

fn curve(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = Fun::gen(src);
    let g = Fun::gen(src);
    let log: Log = Default::default();
    let kind = src.below(6);
    let mut interval = 0.002;
    let l = log.clone();
    let (f1, g1) = (f.clone(), g.clone());
    let single = kind == 1 || kind == 3 || kind == 5;
    if kind >= 4 { interval = gen_interval(src); }
    let mut u: Un = match kind {
        0 => Box::new(h::envelope(move |t| { let v = f1.at(t, 0.0); l.lock().unwrap().push((t, vec![], vec![v])); v })),
        1 => Box::new(h32::envelope(move |t| { let v = f1.at(t as f64, 0.0) as f32; l.lock().unwrap().push((t as f64, vec![], vec![v as f64])); v })),
        2 => Box::new(h::lfo(move |t| { let v = (f1.at(t, 0.0), g1.at(t, 0.0)); l.lock().unwrap().push((t, vec![], vec![v.0, v.1])); v })),
        3 => Box::new(h32::lfo(move |t| { let v = (f1.at(t as f64, 0.0) as f32, g1.at(t as f64, 0.0) as f32, t); l.lock().unwrap().push((t as f64, vec![], vec![v.0 as f64, v.1 as f64, v.2 as f64])); v })),
        4 => Box::new(An(Envelope::new(interval, move |t: f64| { let v = f1.at(t, 0.0); l.lock().unwrap().push((t, vec![], vec![v])); v }))),
        _ => Box::new(An(Envelope::new(interval as f32, move |t: f32| { let v = f1.at(t as f64, 0.0) as f32; l.lock().unwrap().push((t as f64, vec![], vec![v as f64])); v }))),
    };
    let name = ["envelope", "envelope f32", "lfo", "lfo f32", "Envelope", "Envelope f32"][kind as usize];
    if src.chance(1, 4) { interval = gen_interval(src) as f32 as f64; u.set(Setting::interval(interval as f32)); ctx.label("interval setting"); }
    if src.bool() { u.ping(false, AttoHash::new(src.seed())); }
    let sr = *src.pick(RATES);
    let mut note = format!("{} of {:?} and {:?}, interval {} sample rate {}", name, f, g, interval, sr);
    // Optionally a long past at a low sample rate, so that time is far from the origin.
    let mut start = 0.0;
    let mut skip = 0.0;
    if src.chance(1, 4) {
        let slow = *src.pick(&[100.0, 441.0, 1000.0]);
        let top = if src.chance(1, 4) { 60000 } else { 2000 };
        let m = src.size(1, top);
        u.set_sample_rate(slow);
        render(&mut *u, &vec![], 0, &[if src.bool() { Step::Tick(m) } else { Step::Block(m) }].into_iter().flat_map(|s| split(s)).collect::<Vec<_>>());
        if src.chance(1, 4) { u.reset(); ctx.label("after reset"); } else { start = m as f64 / slow; skip = start + 2.0 * (1.25 * interval).max(1.0 / slow) + 1.0e-6; ctx.label("late"); }
        note += &format!(" after {} samples at {} Hz", m, slow);
    }
    u.set_sample_rate(sr);
    let n = if src.chance(1, 8) { src.size(1, 20000) } else { src.size(1, 1500) };
    let y = if src.chance(1, 4) {
        let m = src.size(0, n);
        let a = render(&mut *u, &vec![], 0, &gen_steps(src, m));
        // A copy continues like the original.
        let mut v = u.clone();
        let b = render(&mut *v, &vec![], 0, &gen_steps(src, n - m));
        if m == 0 { b } else if m == n { a } else { a.into_iter().zip(b).map(|(mut a, b)| { a.extend(b); a }).collect() }
    } else { render(&mut *u, &vec![], 0, &gen_steps(src, n)) };
    ctx.note(&note);
    let pts = points(&log);
    ensure!(pts[0].0 == 0.0, "points", "{}: the first evaluation is at {}", name, pts[0].0);
    if start == 0.0 { for c in 0..y.len() { ensure!((y[c][0] as f64 - pts[0].2[c]).abs() <= 1.0e-6 * (1.0 + pts[0].2[c].abs()), "first", "{}: first sample is {}, the function starts at {}", name, y[c][0], pts[0].2[c]); } }
    let from = if start > 0.0 { pts.iter().position(|p| p.0 >= skip).map(|p| p + 1).unwrap_or(pts.len()) } else { 1 };
    check_intervals(name, &pts, from, interval, sr, single)?;
    piecewise(ctx, name, &y, &pts, start, skip, sr, single)
}

fn split(s: Step) -> Vec<Step> {
    match s { Step::Tick(n) => vec![Step::Tick(n)], Step::Block(n) => { let mut v = vec![Step::Block(64); n / 64]; if n % 64 > 0 { v.push(Step::Block(n % 64)); } v } }
}

fn inputs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = Fun::gen(src);
    let g = Fun::gen(src);
    let log: Log = Default::default();
    let kind = src.below(9);
    let l = log.clone();
    let (f1, g1) = (f.clone(), g.clone());
    let single = matches!(kind, 1 | 3 | 6);
    let mut interval = if kind >= 6 { gen_interval(src) } else { 0.002 };
    fn rec(l: &Log, t: f64, x: &[f32], v: f64) { l.lock().unwrap().push((t, x.to_vec(), vec![v])); }
    let mut u: Un = match kind {
        0 => Box::new(h::envelope2(move |t, x| { let v = f1.at(t, x); rec(&l, t, &[x as f32], v); v })),
        1 => Box::new(h32::envelope2(move |t, x| { let v = f1.at(t as f64, x as f64) as f32; rec(&l, t as f64, &[x], v as f64); v })),
        2 => Box::new(h::lfo3(move |t, x, y| { let v = f1.at(t, x) + y; rec(&l, t, &[x as f32, y as f32], v); v })),
        3 => Box::new(h32::envelope3(move |t, x, y| { let v = f1.at(t as f64, x as f64) as f32 + y; rec(&l, t as f64, &[x, y], v as f64); v })),
        4 => Box::new(h::lfo2(move |t, x| { let v = (f1.at(t, x), g1.at(t, x)); l.lock().unwrap().push((t, vec![x as f32], vec![v.0, v.1])); v })),
        5 => Box::new(h::envelope_in(move |t, i: &Frame<f32, U3>| { let v = (f1.at(t, i[0] as f64), i[1] as f64, i[2] as f64); l.lock().unwrap().push((t, i.to_vec(), vec![v.0, v.1, v.2])); v })),
        6 => Box::new(An(EnvelopeIn::<f32, _, U1, _>::new(interval as f32, move |t: f32, i: &Frame<f32, U1>| { let v = f1.at(t as f64, i[0] as f64) as f32; rec(&l, t as f64, i, v as f64); v }))),
        7 => Box::new(An(EnvelopeIn::<f64, _, U2, _>::new(interval, move |t: f64, i: &Frame<f32, U2>| { let v = f1.at(t, i[0] as f64) - i[1] as f64; rec(&l, t, i, v); v }))),
        _ => Box::new(An(EnvelopeIn::<f64, _, U0, _>::new(interval, move |t: f64, i: &Frame<f32, U0>| { let v = f1.at(t, 0.5); rec(&l, t, i, v); v }))),
    };
    let name = ["envelope2", "envelope2 f32", "lfo3", "envelope3 f32", "lfo2", "envelope_in", "EnvelopeIn f32", "EnvelopeIn", "EnvelopeIn without inputs"][kind as usize];
    if src.chance(1, 4) { interval = gen_interval(src) as f32 as f64; u.set(Setting::interval(interval as f32)); }
    if src.bool() { u.ping(false, AttoHash::new(src.seed())); }
    let sr = *src.pick(RATES);
    u.set_sample_rate(sr);
    let ins = u.inputs();
    let seed = src.seed();
    let n = if src.chance(1, 8) { src.size(1, 20000) } else { src.size(1, 1500) };
    let x: Sig = (0..ins).map(|c| (0..n).map(|i| rnd11(seed ^ c as u64, i as u64)).collect()).collect();
    if src.chance(1, 4) {
        let m = src.size(1, 300);
        render(&mut *u, &(0..ins).map(|_| vec![0.3; m]).collect::<Sig>(), 0, &gen_steps(src, m));
        u.reset();
        log.lock().unwrap().clear();
        ctx.label("after reset");
    }
    ctx.note(format!("{} of {:?} and {:?}, interval {} sample rate {}, {} samples", name, f, g, interval, sr, n));
    let steps = gen_steps(src, n);
    let y = render(&mut *u, &x, 0, &steps);
    let pts = points(&log);
    ensure!(!pts.is_empty() && pts[0].0 == 0.0, "points", "{}: the first evaluation is not at zero", name);
    check_intervals(name, &pts, 1, interval, sr, single)?;
    // Each evaluation sees the input at the start of its segment.
    for k in 0..pts.len() {
        let s = if k == 0 { 0.0 } else { pts[k - 1].0 * sr };
        let e = near_ulp(s, single) + 1.0e-6;
        let lo = (s - e).ceil().max(0.0) as usize;
        let hi = (s + e).ceil().max(0.0) as usize;
        let mut ok = false;
        for i in lo..=hi { if i < n && (0..ins).all(|c| x[c][i] == pts[k].1[c]) { ok = true; } }
        ensure!(ok, "input", "{}: evaluation for {} s has inputs {:?}, which are not those of sample {} where the segment starts (input there {:?})", name, pts[k].0, pts[k].1, lo, (0..ins).map(|c| x[c].get(lo)).collect::<Vec<_>>());
    }
    piecewise(ctx, name, &y, &pts, 0.0, 0.0, sr, single)
}

/// Live ADSR against its stages.
fn adsr(src: &mut Src, ctx: &mut Ctx) -> Res {
    // Slow envelopes have stages of many seconds.
    let slow = src.chance(1, 10);
    let sr = *src.pick(if slow { &[4000.0, 8000.0, 3000.0, 4000.0] } else { &[44100.0, 8000.0, 48000.0, 4000.0] });
    let time = |src: &mut Src| match src.below(5) { 0 => 0.0, _ => if slow { src.logf(0.5, 15.0) } else { src.logf(0.02, 0.6) } };
    let (a, d, r) = (time(src), time(src), time(src));
    let s = match src.below(4) { 0 => 0.0, 1 => 1.0, _ => src.u01() };
    let (a, d, s, r) = (a as f32, d as f32, s as f32, r as f32);
    // 2 ms control interval, jittered, input sampled at the start of a segment and taking effect at its end.
    let slack = 0.008 + 2.0 / sr;
    let mut gates: Vec<(f64, bool)> = vec![];
    let mut t = if src.bool() { 0.0 } else { src.f64(0.01, 0.2) };
    let mut on = true;
    let end = if slow { src.f64(2.0, 40.0) } else { src.f64(0.02, 2.0) };
    while t < end { gates.push((t, on)); on = !on; t += if slow { src.logf(0.5, 20.0) } else { src.logf(0.012, 0.8) }; }
    let hold = src.bool();
    let lo = *src.pick(&[0.0f32, -1.0, -0.3]);
    let n = (end * sr) as usize;
    let gate_at = |t: f64| gates.iter().rev().find(|g| g.0 <= t).map(|g| g.1).unwrap_or(false);
    let level = src.f32(0.01, 2.0);
    let x: Vec<f32> = (0..n).map(|i| if gate_at(i as f64 / sr) { if hold { 1.0 } else { level } } else { lo }).collect();
    let convenience = src.below(2);
    let mut u: Un = if convenience == 0 { Box::new(h::adsr_live(a, d, s, r)) } else { Box::new(h32::adsr_live(a, d, s, r)) };
    u.set_sample_rate(sr);
    if src.bool() { u.ping(false, AttoHash::new(src.seed())); }
    let mut note = format!("adsr_live({}, {}, {}, {}) at {} Hz, gate {:?}", a, d, s, r, sr, gates);
    // An arbitrary past erased by a reset, or a copy running elsewhere.
    match src.below(4) {
        0 => { let m = src.size(1, 4000); render(&mut *u, &vec![vec![1.0; m]], 0, &gen_steps(src, m)); u.reset(); note += " after reset"; }
        1 => { let m = src.size(1, 4000); let mut v = u.clone(); if src.bool() { core::mem::swap(&mut u, &mut v); } render(&mut *v, &vec![vec![1.0; m]], 0, &gen_steps(src, m)); note += " beside a copy"; }
        _ => (),
    }
    ctx.note(&note);
    let y = render(&mut *u, &vec![x], 0, &gen_steps(src, n)).remove(0);
    let ads = |t: f64| -> f64 { let (a, d, s) = (a as f64, d as f64, s as f64); if t < a { t / a } else if t - a < d { 1.0 + (s - 1.0) * (t - a) / d } else { s } };
    // Value range of the envelope when both time since attack and time since release are off by the slack.
    for i in 0..n {
        let t = i as f64 / sr;
        let v = y[i] as f64;
        ensure!(v >= -2.0e-5 && v <= 1.0 + 2.0e-5, "range", "sample {} ({} s) is {}: {}", i, t, v, note);
        let k = gates.iter().rposition(|g| g.0 <= t);
        let k = match k { None => { ensure!(v == 0.0, "before", "sample {} ({} s) is {} before any input: {}", i, t, v, note); continue; } Some(k) => k };
        // The last switch has not necessarily taken effect yet.
        if t - gates[k].0 < slack { continue; }
        let held = gates[k].1;
        let on_at = if held { gates[k].0 } else { gates[k - 1].0 };
        let span = |f: &dyn Fn(f64) -> f64, from: f64, to: f64, marks: &[f64]| {
            let mut lo = f64::INFINITY; let mut hi = f64::NEG_INFINITY;
            for j in 0..=16 { let q = f(from + (to - from) * j as f64 / 16.0); lo = lo.min(q); hi = hi.max(q); }
            for m in marks { if *m >= from && *m <= to { for e in [-1.0e-9, 0.0, 1.0e-9] { let q = f(*m + e); lo = lo.min(q); hi = hi.max(q); } } }
            (lo, hi)
        };
        let e = t - on_at;
        let (lo1, hi1) = span(&ads, (e - slack).max(0.0), e + slack, &[a as f64, a as f64 + d as f64]);
        let (mut lo2, mut hi2) = (lo1, hi1);
        if !held {
            let rel = t - gates[k].0;
            let fall = |q: f64| if r <= 0.0 { if q > 0.0 { 0.0 } else { 1.0 } } else { (1.0 - q / r as f64).clamp(0.0, 1.0) };
            let (lo3, hi3) = span(&fall, rel - slack, rel + slack, &[]);
            lo2 *= lo3; hi2 *= hi3;
            if rel > r as f64 + 2.0 * slack { ensure!(v == 0.0, "released", "sample {} ({} s) is {}, {} s after release: {}", i, t, v, rel, note); }
        }
        ensure!(v >= lo2 - 1.0e-4 && v <= hi2 + 1.0e-4, if held { "held" } else { "release" }, "sample {} ({} s) is {}, expected between {} and {} ({} s since attack): {}", i, t, v, lo2, hi2, e, note);
        ctx.nontrivial();
    }
    Ok(())
}

/// A live ADSR works the same late in the life of a stream.
fn late(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, d, s, r) = (src.f32(0.02, 0.2), src.f32(0.02, 0.2), src.f32(0.1, 0.9), src.f32(0.02, 0.2));
    let m = src.size(1, 100000);
    let slow = *src.pick(&[100.0, 441.0, 1000.0]);
    let sr = *src.pick(&[44100.0, 48000.0, 192000.0]);
    let mut u: Un = Box::new(h::adsr_live(a, d, s, r));
    u.set_sample_rate(slow);
    render(&mut *u, &vec![vec![0.0; m]], 0, &split(if src.bool() { Step::Tick(m) } else { Step::Block(m) }));
    u.set_sample_rate(sr);
    ctx.note(format!("adsr_live({}, {}, {}, {}) at {} Hz after {} s", a, d, s, r, sr, m as f64 / slow));
    ctx.nontrivial();
    let (held, after) = ((a + d) as f64 + 0.05, r as f64 + 0.05);
    let n1 = (held * sr) as usize;
    let n2 = (after * sr) as usize;
    // Segments of the old sample rate run out first.
    let settle = (0.05 * sr) as usize;
    render(&mut *u, &vec![vec![0.0; settle]], 0, &split(Step::Block(settle)));
    let x: Sig = vec![(0..n1 + n2).map(|i| if i < n1 { 1.0 } else { 0.0 }).collect()];
    let steps = if src.bool() { split(Step::Block(n1 + n2)) } else { vec![Step::Tick(n1 + n2)] };
    let y = render(&mut *u, &x, 0, &steps).remove(0);
    let top = (0..y.len()).fold(0, |b, i| if y[i] > y[b] { i } else { b });
    let peak = top as f64 / sr;
    ensure!(y[top] >= 1.0 - 0.003 / a.min(d) && (peak - a as f64).abs() <= 0.012, "late attack", "highest level {} reached at {:?} s, attack time is {} s, {} s into the stream", y[top], peak, a, m as f64 / slow);
    ensure!((y[n1 - 1] - s).abs() <= 0.001, "late sustain", "level is {} after attack and decay, sustain is {}, {} s into the stream", y[n1 - 1], s, m as f64 / slow);
    ensure!(y[n1 + n2 - 1] == 0.0, "late release", "level is {} after release of {} s, {} s into the stream", y[n1 + n2 - 1], r, m as f64 / slow);
    let half = n1 + (0.5 * r as f64 * sr) as usize;
    ensure!((y[half] - 0.5 * s).abs() <= s * (0.02 + 0.006 / r), "late release", "level is {} halfway into release from {}, {} s into the stream", y[half], s, m as f64 / slow);
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C25",
        rule: "curve and inputs: random functions record when and with which inputs they are evaluated; evaluations must be 0.75-1.25 intervals apart, start at zero, see the input at the start of their segment, and every output sample must interpolate them linearly at exactly sample index over sample rate; adsr and late: random stage times and gate histories against the stage formula within one and a half control intervals. Non-trivial when samples were compared",
        assumptions: &["the input of an envelope is sampled at the start of each segment (documented as control rate)", "gates shorter than a control interval may go unnoticed and are not generated"],
        subs: vec![
            Sub { name: "curve", quick: 30000, thorough: 1500000, f: curve },
            Sub { name: "inputs", quick: 30000, thorough: 1500000, f: inputs },
            Sub { name: "adsr", quick: 1500, thorough: 100000, f: adsr },
            Sub { name: "late", quick: 400, thorough: 20000, f: late },
        ],
    })
}
