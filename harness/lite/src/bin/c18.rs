//! C18: followers, declicker and DC blocker.
use fundsp::hacker as h;
use fundsp::hacker32 as h32;
use fundsp::hacker::AudioUnit;
use vfcore::kind::Kind;
use vfcore::render::{describe_steps, gen_input, gen_steps, rnd11, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
const RATES: [f64; 5] = [44100.0, 48000.0, 8000.0, 96000.0, 22050.0];

fn follow(wide: bool, t: f32) -> Un { if wide { Box::new(h::follow(t)) } else { Box::new(h32::follow(t)) } }
fn afollow(wide: bool, a: f32, r: f32) -> Un { if wide { Box::new(h::afollow(a, r)) } else { Box::new(h32::afollow(a, r)) } }

fn gen_target(src: &mut Src, n: usize) -> Vec<f32> {
    let kind = src.below(5);
    let seed = src.seed();
    let per = src.size(1, 60) as u64;
    let (a, b) = (src.f32(-10.0, 10.0), src.f32(-10.0, 10.0));
    (0..n).map(|i| {
        let i = i as u64;
        match kind { 0 => a, 1 => a + b * rnd11(seed, i), 2 => a + b * rnd11(seed, i / per), 3 => if (i / per) % 2 == 0 { a } else { b }, _ => a + b * (i as f32 / n as f32) }
    }).collect()
}

/// The output stays within the range of the inputs since the last reset, and starts at the first input.
fn range(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let sr = *src.pick(&RATES);
    let (a, r) = ((src.logf(0.1, 3000.0) / sr) as f32, (src.logf(0.1, 3000.0) / sr) as f32);
    let sym = src.bool();
    let mut u = if sym { follow(wide, a) } else { afollow(wide, a, r) };
    u.set_sample_rate(sr);
    let mut log = format!("{} attack {} release {} at {}", if sym { "follow" } else { "afollow" }, a, r, sr);
    let rounds = src.size(1, 3);
    for _ in 0..rounds {
        let n = src.size(1, 400);
        let x: Sig = vec![gen_target(src, n)];
        let st = gen_steps(src, n);
        log.push_str(&format!("; play {}", describe_steps(&st)));
        let y = render::render(&mut *u, &x, 0, &st);
        let (mut lo, mut hi) = (f32::INFINITY, f32::NEG_INFINITY);
        for i in 0..n {
            lo = lo.min(x[0][i]);
            hi = hi.max(x[0][i]);
            // Single precision accumulates rounding in proportion to the response time.
            let tol = (1.0e-5 + if wide { 0.0 } else { 2.4e-7 * a.max(r) * sr as f32 }) * (lo.abs().max(hi.abs()));
            let v = y[0][i];
            ensure!(v >= lo - tol && v <= hi + tol, "range", "output {} is {}, inputs so far are in {}..{}: {}", i, v, lo, hi, log);
            if i == 0 { ensure!((v - x[0][0]).abs() <= tol, "first", "first output {} for first input {}: {}", v, x[0][0], log); }
        }
        u.reset();
        log.push_str("; reset");
    }
    ctx.note(&log);
    ctx.nontrivial();
    Ok(())
}

/// Steps from a settled value: monotone, half of the way in the response time, and done eventually.
fn step(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let sr = *src.pick(&RATES);
    let samples = if src.chance(1, 3) { src.logf(1.0, 10.0) } else { src.logf(5.0, 1500.0) };
    let other = src.logf(1.0, 1500.0);
    let (t, o) = ((samples / sr) as f32, (other / sr) as f32);
    let rising = src.bool();
    let form = src.below(3);
    let mut u = match form { 0 => follow(wide, t), 1 => afollow(wide, t, t), _ => if rising { afollow(wide, t, o) } else { afollow(wide, o, t) } };
    let mut log = format!("{} rising {} time {} samples, other {} at {}, wide {}", ["follow", "afollow same", "afollow"][form as usize], rising, samples, other, sr, wide);
    if src.bool() { u.set_sample_rate(*src.pick(&RATES)); u.filter_mono_any(3.0); u.reset(); }
    u.set_sample_rate(sr);
    let a = src.f32(-4.0, 4.0);
    let d = src.f32(0.1, 4.0);
    let b = if rising { a + d } else { a - d };
    let hold = src.size(1, 50);
    let n = hold + (samples * 8.0) as usize + 20;
    let x: Sig = vec![(0..n).map(|i| if i < hold { a } else { b }).collect()];
    let st = gen_steps(src, n);
    log.push_str(&format!("; {} to {} after {}; {}", a, b, hold, describe_steps(&st)));
    ctx.note(&log);
    ctx.nontrivial();
    let y = render::render(&mut *u, &x, 0, &st);
    let eps = (1.0e-5 + if wide { 0.0 } else { 2.4e-7 * samples.max(other) as f32 }) * (a.abs() + b.abs() + 1.0);
    for i in 0..hold { ensure!((y[0][i] - a).abs() <= eps, "settled", "output {} is {} for constant {}: {}", i, y[0][i], a, log); }
    for i in hold..n {
        let (p, v) = (y[0][i - 1], y[0][i]);
        ensure!(if rising { v >= p - eps * 0.1 } else { v <= p + eps * 0.1 }, "monotone", "output {} goes from {} to {}: {}", i, p, v, log);
    }
    ensure!((y[0][n - 1] - b).abs() <= 0.01 * d, "arrives", "last output {} for target {}: {}", y[0][n - 1], b, log);
    let mid = (a + b) / 2.0;
    let k = (hold..n).find(|i| if rising { y[0][*i] >= mid } else { y[0][*i] <= mid }).unwrap_or(n - 1);
    // Time of the crossing, interpolated; the first output after the step counts as one sample.
    let (p, v) = (y[0][k - 1] as f64, y[0][k] as f64);
    let at = (k - hold) as f64 + (mid as f64 - p) / (v - p);
    ensure!((at - samples).abs() <= 0.02 * samples + 0.15, "halfway", "half of the way took {} samples, should take {}: {}", at, samples, log);
    Ok(())
}

/// Response times up to many seconds.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&RATES);
    let samples = src.logf(1500.0, 450000.0);
    let wide = samples > 8000.0 || src.bool();
    let other = src.logf(1.0, 450000.0);
    let (t, o) = ((samples / sr) as f32, (other / sr) as f32);
    let rising = src.bool();
    let form = src.below(3);
    let mut u = match form { 0 => follow(wide, t), 1 => afollow(wide, t, t), _ => if rising { afollow(wide, t, o) } else { afollow(wide, o, t) } };
    u.set_sample_rate(sr);
    let d = src.f32(0.1, 4.0);
    let b = if rising { d } else { -d };
    ctx.note(format!("{} rising {rising} time {samples} samples, other {other} at {sr} Hz, wide {wide}", ["follow", "afollow same", "afollow"][form as usize]));
    let mut y = [0.0];
    u.tick(&[0.0], &mut y);
    let n = (samples * 1.1) as usize + 64;
    let mut x = fundsp::buffer::BufferVec::new(1);
    x.channel_f32_mut(0).fill(b);
    let mut out = fundsp::buffer::BufferVec::new(1);
    let (mut i, mut p) = (0, y[0]);
    let mut at = None;
    while i < n {
        u.process(64, &x.buffer_ref(), &mut out.buffer_mut());
        for j in 0..64 {
            let v = out.channel_f32(0)[j];
            ensure!(if rising { v >= p - 1.0e-5 } else { v <= p + 1.0e-5 }, "monotone", "output {} goes from {p} to {v}", i + j);
            if at.is_none() && v.abs() >= d / 2.0 { at = Some((i + j) as f64); }
            p = v;
        }
        i += 64;
    }
    let tol = if wide { 0.02 } else { 0.04 };
    ensure!(at.is_some_and(|at| (at - samples).abs() <= tol * samples + 2.0), "halfway", "half of the way took {:?} samples, should take {samples}", at);
    ctx.nontrivial();
    Ok(())
}

trait One { fn filter_mono_any(&mut self, x: f32); }
impl One for Un { fn filter_mono_any(&mut self, x: f32) { let mut y = [0.0]; self.tick(&[x], &mut y); } }

/// Attack applies to rising and release to falling input; the symmetric forms agree.
fn forms(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let sr = *src.pick(&RATES);
    let (a, r) = ((src.logf(0.5, 1000.0) / sr) as f32, (src.logf(0.5, 1000.0) / sr) as f32);
    let kind = src.below(3);
    let n = src.size(2, 300);
    let seed = src.seed();
    let mut v = src.f32(-2.0, 2.0);
    let x: Sig = vec![match kind { 0 => gen_target(src, n), _ => (0..n).map(|i| { let d = rnd11(seed, i as u64).abs() * 0.1; v += if kind == 1 { d } else { -d }; v }).collect() }];
    let (mut u, mut w) = match kind { 0 => (follow(wide, a), afollow(wide, a, a)), 1 => (follow(wide, a), afollow(wide, a, r)), _ => (follow(wide, r), afollow(wide, a, r)) };
    u.set_sample_rate(sr);
    w.set_sample_rate(sr);
    let (s1, s2) = (gen_steps(src, n), gen_steps(src, n));
    let log = format!("{} input, attack {} release {} at {}, wide {}", ["any", "rising", "falling"][kind as usize], a, r, sr, wide);
    ctx.note(&log);
    ctx.nontrivial();
    let p = render::render(&mut *u, &x, 0, &s1);
    let q = render::render(&mut *w, &x, 0, &s2);
    let pk = render::peak(&x);
    for i in 0..n { ensure!(((p[0][i] - q[0][i]).abs() as f64) <= (2.0e-5 + if wide { 0.0 } else { 4.8e-7 * (a.max(r) as f64) * sr }) * (1.0 + pk), "forms", "output {} is {} from follow and {} from afollow: {}", i, p[0][i], q[0][i], log); }
    Ok(())
}

/// New times take effect at once: a settled follower does not remember the times it had.
fn settings(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let split = src.bool();
    let (sr, sr2) = (*src.pick(&RATES), *src.pick(&RATES));
    let by_rate = src.chance(1, 3);
    let sr2 = if by_rate { sr2 } else { sr };
    let mut time = |src: &mut Src| (src.logf(1.0, 1000.0) / sr2) as f32;
    let (a1, r1, a2, r2) = (time(src), time(src), time(src), time(src));
    let (a1, r1) = if by_rate { (a2, r2) } else { (a1, r1) };
    let make = |a: f32, r: f32| if split { afollow(wide, a, r) } else { follow(wide, a) };
    let (mut u, mut w) = (make(a1, r1), make(a2, r2));
    u.set_sample_rate(sr);
    w.set_sample_rate(sr2);
    let v = src.f32(-2.0, 2.0);
    // A follower jumps to its first input value and is then settled.
    let k = src.size(0, 70);
    let steps = gen_steps(src, k);
    let flat = vec![vec![v; k]];
    if k > 0 { render::render(&mut *u, &flat, 0, &steps); render::render(&mut *w, &flat, 0, &steps); }
    if by_rate { u.set_sample_rate(sr2); } else if split { u.set(h::Setting::attack_release(a2, r2)); } else { u.set(h::Setting::time(a2)); }
    let n = src.size(1, 200);
    let x: Sig = vec![gen_target(src, n)];
    let s1 = gen_steps(src, n);
    let log = format!("{} after {} samples of {}: times {} {} to {} {}, rate {} to {}, wide {}", if split { "afollow" } else { "follow" }, k, v, a1, r1, a2, r2, sr, sr2, wide);
    ctx.note(&log);
    ctx.nontrivial();
    let p = render::render(&mut *u, &x, 0, &s1);
    let q = render::render(&mut *w, &x, 0, &s1);
    let pk = render::peak(&x) + v.abs() as f64;
    for i in 0..n { ensure!(((p[0][i] - q[0][i]).abs() as f64) <= 3.0e-5 * (1.0 + pk), "settings", "output {} is {}, a follower made with these times outputs {}: {}", i, p[0][i], q[0][i], log); }
    Ok(())
}

/// Fade-in.
fn declick(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let sr = *src.pick(&RATES);
    let samples = if src.chance(1, 8) { 0.0 } else { src.logf(0.5, 2000.0) };
    let default = src.chance(1, 6);
    let t = if default { 0.010 } else { (samples / sr) as f32 };
    let mut u: Un = match (default, wide) { (true, true) => Box::new(h::declick()), (true, false) => Box::new(h32::declick()), (false, true) => Box::new(h::declick_s(t)), _ => Box::new(h32::declick_s(t)) };
    let mut log = format!("declick {} s at {}, wide {}", t, sr, wide);
    if src.bool() {
        u.set_sample_rate(*src.pick(&RATES));
        let m = src.size(1, 600);
        let x = gen_input(src, &[Kind::Audio], m);
        let st = gen_steps(src, m);
        render::render(&mut *u, &x, 0, &st);
        if src.bool() { u.set_sample_rate(sr); u.reset(); } else { u.reset(); u.set_sample_rate(sr); }
        log.push_str(" after an earlier life");
    }
    u.set_sample_rate(sr);
    let n = (t as f64 * sr) as usize + src.size(1, 300);
    let x = gen_input(src, &[Kind::Audio], n);
    let st = gen_steps(src, n);
    log.push_str(&format!("; {}", describe_steps(&st)));
    ctx.note(&log);
    if samples > 1.0 { ctx.nontrivial(); }
    let y = render::render(&mut *u, &x, 0, &st);
    let pk = render::peak(&x);
    let tol = if wide { 1.0e-6 } else { 2.0e-7 * n as f64 + 1.0e-5 };
    for i in 0..n {
        let ph = i as f64 / (t as f64 * sr);
        let g = if ph < 1.0 { ((6.0 * ph - 15.0) * ph + 10.0) * ph * ph * ph } else { 1.0 };
        let want = x[0][i] as f64 * g;
        ensure!((y[0][i] as f64 - want).abs() <= tol * pk + 1.0e-30, "declick", "output {} is {}, should be {} of input {}: {}", i, y[0][i], want, x[0][i], log);
        if ph > 1.01 && i as f64 > t as f64 * sr + 2.0 { ensure!(same(y[0][i], x[0][i]), "declick passes", "output {} is {} for input {}: {}", i, y[0][i], x[0][i], log); }
    }
    Ok(())
}

/// DC removal: a constant decays at the pace of the cutoff, changes pass, high tones pass unchanged.
fn dcblock(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let sr = *src.pick(&RATES);
    let default = src.chance(1, 6);
    let hz = if default { 10.0 } else { src.logf(5.0, sr * 0.01) as f32 };
    let mut u: Un = match (default, wide) { (true, true) => Box::new(h::dcblock()), (true, false) => Box::new(h32::dcblock()), (false, true) => Box::new(h::dcblock_hz(hz)), _ => Box::new(h32::dcblock_hz(hz)) };
    if src.bool() { u.set_sample_rate(*src.pick(&RATES)); u.filter_mono_any(3.0); u.reset(); }
    u.set_sample_rate(sr);
    let dc = src.f32(-5.0, 5.0);
    let tau = sr / (std::f64::consts::TAU * hz as f64);
    let tone = src.bool();
    let f = sr * 0.2;
    let log = format!("dcblock {} Hz at {} with {} and tone {}, wide {}", hz, sr, dc, tone, wide);
    ctx.note(&log);
    ctx.nontrivial();
    let n = (tau * 4.0) as usize + 10;
    let s = |i: usize| if tone { (std::f64::consts::TAU * f * i as f64 / sr).sin() } else { 0.0 };
    let x: Sig = vec![(0..n).map(|i| (dc as f64 + s(i)) as f32).collect()];
    let st = gen_steps(src, n);
    let y = render::render(&mut *u, &x, 0, &st);
    for i in 0..n {
        let want = dc as f64 * (-(i as f64) / tau).exp() + s(i);
        // The tone is changed by a little over the ratio of the cutoff to its frequency.
        let tol = (dc.abs() as f64) * 0.05 + if tone { 2.5 * hz as f64 / f } else { 0.0 } + 1.0e-3;
        ensure!((y[0][i] as f64 - want).abs() <= tol, "dcblock", "output {} is {}, should be about {}: {}", i, y[0][i], want, log);
    }
    // Settled on a constant the output vanishes.
    let m = (tau * 16.0) as usize;
    let x: Sig = vec![vec![dc; m]];
    let st = gen_steps(src, m);
    let y = render::render(&mut *u, &x, 0, &st);
    ensure!((y[0][m - 1].abs() as f64) <= 1.0e-4 * (1.0 + dc.abs() as f64) * if wide { 1.0 } else { 1.0 + tau * 0.01 }, "dc removed", "output settles at {} for constant {}: {}", y[0][m - 1], dc, log);
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C18",
        rule: "random targets into followers of both precisions (range, steps, forms), fade-ins and DC blocking at random times, sample rates and block partitions; every case is non-trivial except fade-ins of at most one sample",
        assumptions: &["response times of at least one sample", "halfway time within 2% plus 0.15 samples (the documented approximation is 0.5%)"],
        subs: vec![
            Sub { name: "range", quick: 400000, thorough: 20000000, f: range },
            Sub { name: "step", quick: 200000, thorough: 10000000, f: step },
            Sub { name: "long", quick: 300, thorough: 20000, f: long },
            Sub { name: "forms", quick: 200000, thorough: 3000000, f: forms },
            Sub { name: "settings", quick: 150000, thorough: 3000000, f: settings },
            Sub { name: "declick", quick: 200000, thorough: 2000000, f: declick },
            Sub { name: "dcblock", quick: 20000, thorough: 200000, f: dcblock },
        ],
    })
}
