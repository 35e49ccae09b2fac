//! C22: oscillators produce their waveform at the requested frequency and phase.
use fundsp::hacker as h;
use fundsp::hacker32 as h32;
use fundsp::hacker::{An, AtomicSynth, AtomicTable, AudioUnit, Interpolation, PhaseSynth, PolyPulse, PolySaw, PolySquare, Ramp, Setting, Sine, WaveSynth, Wavetable, U1, U2};
use std::f64::consts::TAU;
use std::sync::Arc;
use vfcore::render::{describe_steps, gen_steps, render, rnd11};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
const RATES: &[f64] = &[44100.0, 48000.0, 22050.0, 96000.0, 192000.0, 8000.0, 11025.5];
const HIGH_RATES: &[f64] = &[44100.0, 48000.0, 96000.0, 192000.0];

/// A frequency signal: constant, stepped, swept or noisy, below `top` in magnitude.
fn freq(src: &mut Src, n: usize, top: f64, negative: bool) -> (Vec<f32>, String) {
    let k = src.below(5);
    let sign = if negative && src.chance(1, 4) { -1.0 } else { 1.0 };
    let a = src.logf(0.5, top) * sign;
    let b = src.logf(0.5, top) * if negative && src.chance(1, 4) { -1.0 } else { 1.0 };
    let seed = src.seed();
    let v = (0..n).map(|i| match k {
        0 => a,
        1 => if (i / 13) % 2 == 0 { a } else { b },
        2 => a + (b - a) * i as f64 / n as f64,
        3 => a + (b - a) * (rnd11(seed, i as u64) as f64 * 0.5 + 0.5),
        _ => if i % 64 == 5 { b } else { a },
    } as f32).collect();
    (v, format!("freq mode {} {:.3} {:.3}", k, a, b))
}

/// Smoothed unit step: the integral of a triangular kernel of half width one.
fn sstep(x: f64) -> f64 { if x <= -1.0 { 0.0 } else if x < 0.0 { 0.5 * (1.0 + x) * (1.0 + x) } else if x < 1.0 { 1.0 - 0.5 * (1.0 - x) * (1.0 - x) } else { 1.0 } }
/// A falling or rising step of height two at phase `at`, smoothed over `dt`, minus the ideal step.
fn residual(ph: f64, at: f64, dt: f64, up: bool) -> f64 {
    let mut d = ph - at;
    d -= d.round();
    // At exactly the step the ideal value is that on the right.
    let r = if dt > 0.0 { sstep(d / dt) } else if d >= 0.0 { 1.0 } else { 0.0 };
    let i = if d >= 0.0 { 1.0 } else { 0.0 };
    2.0 * (r - i) * if up { 1.0 } else { -1.0 }
}

fn phases(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(6);
    let wide = src.bool();
    let sr = *src.pick(RATES);
    let n = if src.chance(1, 10) { src.size(1000, 6000) } else { src.size(1, 400) };
    let p0 = match src.below(4) { 0 => 0.0, 1 => src.f32(0.0, 1.0), 2 => 0.5, _ => 0.9999 };
    let names = ["sine", "ramp", "poly_saw", "poly_square", "poly_pulse", "wave phase"];
    let name = names[kind as usize];
    let poly = (2..5).contains(&kind);
    // Frequencies above Nyquist alias: the phase still advances by frequency over sample rate.
    let over = !poly && src.chance(1, 6);
    let (f, mut log) = freq(src, n, sr * if poly { 0.45 } else if over { 3.0 } else { 0.499 }, !poly);
    let how = src.below(4);
    macro_rules! make { ($wide:expr, $T:ident, $a:expr, $b:expr) => { match (how, $wide) {
        (0, true) => Box::new(An($T::<f64>::with_phase(p0))) as Un,
        (0, false) => Box::new(An($T::<f32>::with_phase(p0))) as Un,
        (1, true) => Box::new($a.phase(p0)) as Un,
        (1, false) => Box::new($b.phase(p0)) as Un,
        (_, true) => { let mut u: Un = Box::new($a); u.set(Setting::phase(p0)); u.reset(); u }
        (_, false) => { let mut u: Un = Box::new($b); u.set(Setting::phase(p0)); u.reset(); u }
    } } }
    let mut u: Un = match kind {
        0 => make!(wide, Sine, h::sine(), h32::sine()),
        1 => make!(wide, Ramp, h::ramp(), h32::ramp()),
        2 => make!(wide, PolySaw, h::poly_saw(), h32::poly_saw()),
        3 => make!(wide, PolySquare, h::poly_square(), h32::poly_square()),
        4 => make!(wide, PolyPulse, h::poly_pulse(), h32::poly_pulse()),
        _ => { let mut u: Un = Box::new(An(WaveSynth::<U2>::new(h::triangle_table()))); u.set(Setting::phase(p0)); u.reset(); u }
    };
    let wide = wide && kind != 5;
    u.set_sample_rate(sr);
    if how == 3 {
        // An arbitrary past is forgotten by a reset.
        let m = src.size(1, 100);
        let mut x = vec![vec![321.0; m]];
        if kind == 4 { x.push(vec![0.3; m]); }
        render(&mut *u, &x, 0, &gen_steps(src, m));
        u.reset();
    }
    let w = src.f32(0.0, 1.0);
    let wseed = src.seed();
    let wmod = src.bool();
    let width: Vec<f32> = (0..n).map(|i| if wmod { (rnd11(wseed, i as u64) * 0.5 + 0.5).clamp(0.0, 1.0) } else { w }).collect();
    let mut x = vec![f.clone()];
    if kind == 4 { x.push(width.clone()); }
    let steps = gen_steps(src, n);
    log = format!("{} {} phase {} rate {} {} {}", name, if wide { "f64" } else { "f32" }, p0, sr, log, describe_steps(&steps));
    ctx.note(&log);
    ctx.nontrivial();
    let y = render(&mut *u, &x, 0, &steps);
    let mut ph = p0 as f64;
    for i in 0..n {
        let d = f[i] as f64 / sr;
        if kind == 5 { ph += d; }
        let c = ph - ph.floor();
        // Accumulated rounding in cycles.
        let tol = if wide { 1.0e-12 * i as f64 + 4.0e-6 } else { 4.0e-6 * (i as f64 + 1.0).min(64.0) + 1.0e-6 * i as f64 + 1.0e-6 };
        let tol = if over { tol * 6.0 } else { tol };
        let v = y[if kind == 5 { 1 } else { 0 }][i] as f64;
        let (want, t) = match kind {
            0 => ((TAU * c).sin(), TAU * tol),
            1 | 5 => (c, tol),
            2 => (2.0 * c - 1.0 + residual(c, 0.0, d, false), 2.0 * tol + 4.0 * tol / d.max(tol)),
            3 => ((if c < 0.5 { 1.0 } else { -1.0 }) + residual(c, 0.0, d, true) + residual(c, 0.5, d, false), 4.0 * tol / d.max(tol)),
            _ => { let w = width[i] as f64; ((if c < w { 1.0 } else { -1.0 }) + residual(c, 0.0, d, true) + residual(c, w, d, false), 4.0 * tol / d.max(tol)) }
        };
        let mut e = (v - want).abs();
        if kind == 1 || kind == 5 { e = e.min((e - 1.0).abs()); }
        ensure!(e <= t + 1.0e-6, name, "sample {} is {}, expected {} (phase {}): {}", i, v, want, c, log);
        let (lo, hi) = if kind == 1 || kind == 5 { (0.0, 1.0) } else { (-1.0, 1.0) };
        ensure!(v >= lo - 2.0e-6 && v <= hi + 2.0e-6, format!("{} range", name), "sample {} is {}: {}", i, v, log);
        if kind != 5 { ph += d; }
    }
    Ok(())
}

/// The fixed frequency forms equal the input forms.
fn fixed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let f = src.logf32(1.0, 0.4 * sr as f32);
    let r = src.f32(0.05, 0.95);
    let p0 = src.f32(0.0, 1.0);
    let k = src.below(14);
    let n = src.size(1, 300);
    let (mut a, mut b): (Un, Un) = match k {
        0 => (Box::new(h::sine_hz(f).phase(p0)), Box::new(h::sine().phase(p0))),
        1 => (Box::new(h::ramp_hz(f).phase(p0)), Box::new(h::ramp().phase(p0))),
        2 => (Box::new(h::saw_hz(f).phase(p0)), Box::new(h::saw().phase(p0))),
        3 => (Box::new(h::square_hz(f).phase(p0)), Box::new(h::square().phase(p0))),
        4 => (Box::new(h::triangle_hz(f).phase(p0)), Box::new(h::triangle().phase(p0))),
        5 => (Box::new(h::organ_hz(f).phase(p0)), Box::new(h::organ().phase(p0))),
        6 => (Box::new(h::soft_saw_hz(f).phase(p0)), Box::new(h::soft_saw().phase(p0))),
        7 => (Box::new(h::hammond_hz(f).phase(p0)), Box::new(h::hammond().phase(p0))),
        8 => (Box::new(h::poly_saw_hz(f).phase(p0)), Box::new(h::poly_saw().phase(p0))),
        9 => (Box::new(h::poly_square_hz(f).phase(p0)), Box::new(h::poly_square().phase(p0))),
        10 => (Box::new(h::poly_pulse_hz(f, r).phase(p0)), Box::new(h::poly_pulse().phase(p0))),
        11 => (Box::new(h32::sine_hz(f).phase(p0)), Box::new(h32::sine().phase(p0))),
        12 => (Box::new(h::dsf_saw_r(r).phase(p0)), Box::new(h::dsf_saw().phase(p0))),
        _ => (Box::new(h::dsf_square_r(r).phase(p0)), Box::new(h::dsf_square().phase(p0))),
    };
    ctx.note(format!("pair {} f {} r {} phase {} rate {} n {}", k, f, r, p0, sr, n));
    ctx.nontrivial();
    let mut x = vec![vec![f; n]];
    if k == 10 || k >= 12 { x.push(vec![r; n]); }
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let st = gen_steps(src, n);
    let ax: Vec<Vec<f32>> = if k >= 12 { vec![vec![f; n]] } else { vec![] };
    let (ya, yb) = (render(&mut *a, &ax, 0, &st), render(&mut *b, &x, 0, &st));
    for i in 0..n { ensure!((ya[0][i] - yb[0][i]).abs() <= 1.0e-5, format!("fixed form {}", k), "sample {}: {} and {} (f {} r {} phase {} rate {})", i, ya[0][i], yb[0][i], f, r, p0, sr); }
    Ok(())
}

/// Discrete summation against the sum of its partials.
fn dsf(src: &mut Src, ctx: &mut Ctx) -> Res {
    let square = src.bool();
    let sr = *src.pick(RATES);
    let p0 = src.f32(0.0, 1.0);
    let n = src.size(1, 200);
    let (f, log) = freq(src, n, (sr * 0.45).min(20000.0), false);
    let f: Vec<f32> = f.iter().map(|x| x.max(30.0)).collect();
    let r = src.f32(0.0, 0.9);
    let seed = src.seed();
    let rmod = src.bool();
    let rough: Vec<f32> = (0..n).map(|i| if rmod { (rnd11(seed, i as u64) * 0.45 + 0.45).max(0.0) } else { r }).collect();
    let mut u: Un = if square { Box::new(h::dsf_square().phase(p0)) } else { Box::new(h::dsf_saw().phase(p0)) };
    u.set_sample_rate(sr);
    let st = gen_steps(src, n);
    ctx.note(format!("dsf {} phase {} rate {} {} {}", if square { "square" } else { "saw" }, p0, sr, log, describe_steps(&st)));
    ctx.nontrivial();
    let y = render(&mut *u, &vec![f.clone(), rough.clone()], 0, &st).remove(0);
    let space = if square { 2.0 } else { 1.0 };
    let mut ph = p0 as f64;
    for i in 0..n {
        ph += f[i] as f64 / sr;
        let c = (ph - ph.floor()) * TAU;
        let r = (rough[i] as f64).max(1.0e-4);
        let m = (22050.0 / f[i] as f64 / space).floor() as i64;
        let sum = |m: i64| { let mut s = 0.0; let mut w = 1.0; for k in 0..=m { s += w * (c * (1.0 + k as f64 * space)).sin(); w *= r; if w < 1.0e-9 { break; } } s };
        // Rounding may move the number of partials by one.
        let edge = r.powi((m - 1).max(0) as i32) * if ((22050.0 / f[i] as f64 / space) - (22050.0 / f[i] as f64 / space).round()).abs() < 1.0e-4 { 1.1 } else { 0.0 };
        let slope: f64 = (0..=m.min(400)).map(|k| r.powi(k as i32) * (1.0 + k as f64 * space)).sum();
        let den = 1.0 + r * r - 2.0 * r * (c * space).cos();
        let tol = (1.5e-7 * i as f64 + 5.0e-7) * TAU * slope * 2.0 + 4.0e-6 / den + r.powi(m as i32) * 2.0e-6 * (m as f64 * space + 2.0) * 4.0 / den + edge;
        let want = sum(m);
        ensure!((y[i] as f64 - want).abs() <= tol + 1.0e-5, "dsf sum", "sample {} is {}, the sum of {} partials is {} (tolerance {:e}, f {}, roughness {}, {} at rate {})", i, y[i], m + 1, want, tol, f[i], r, if square { "square" } else { "saw" }, sr);
    }
    Ok(())
}

const RECIPES: [&str; 6] = ["saw", "square", "triangle", "organ", "soft_saw", "hammond"];
/// Amplitude (relative to the first partial) and phase of partial `i`.
fn recipe(k: usize, i: usize) -> (f64, f64) {
    let odd = i % 2 == 1;
    let x = i as f64;
    let classic = if i % 4 == 3 { 0.5 } else if odd { 0.0 } else { 0.5 };
    match k {
        0 => (1.0 / x, if odd { 0.0 } else { 0.5 }),
        1 => (if odd { 1.0 / x } else { 0.0 }, 0.0),
        2 => (if odd { 1.0 / (x * x) } else { 0.0 }, if i % 4 == 3 { 0.5 } else { 0.0 }),
        3 => { let j = (i >> i.trailing_zeros()) as f64; (2.0 / (x + j * j * j), classic) }
        4 => (1.0 / (x * x), classic),
        _ => {
            let z = i.trailing_zeros();
            let j = i >> z;
            let f = 1.0 / ((z + 1) * (z + 1)) as f64;
            (if i <= 3 { 1.0 } else { match j { 1 | 3 => f, 9 => 0.2 * f, _ => 0.0 } }, 0.0)
        }
    }
}

fn dft(y: &[f32], bin: usize) -> (f64, f64) {
    let n = y.len();
    let (s, c) = (TAU * bin as f64 / n as f64).sin_cos();
    let (mut zr, mut zi) = (1.0f64, 0.0f64);
    let (mut re, mut im) = (0.0, 0.0);
    for v in y {
        re += *v as f64 * zr;
        im -= *v as f64 * zi;
        let t = zr * c - zi * s;
        zi = zr * s + zi * c;
        zr = t;
    }
    (re * 2.0 / n as f64, im * 2.0 / n as f64)
}

/// The spectrum of the band-limited wavetable oscillators.
fn spectrum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.size(0, 5);
    let sr = *src.pick(HIGH_RATES);
    const N: usize = 4096;
    let top = (21500.0 / sr * N as f64) as usize;
    let bin = src.logf(2.0, top as f64).round() as usize;
    let f = bin as f64 * sr / N as f64;
    let p0 = src.f32(0.0, 1.0);
    // A negative frequency runs the wave backwards: started at the end, it is the same wave reversed.
    let negative = src.chance(1, 4);
    let s0 = if negative { (p0 as f64 + bin as f64 / N as f64).fract() as f32 } else { p0 };
    let mut u: Un = match k { 0 => Box::new(h::saw().phase(s0)), 1 => Box::new(h::square().phase(s0)), 2 => Box::new(h::triangle().phase(s0)), 3 => Box::new(h::organ().phase(s0)), 4 => Box::new(h::soft_saw().phase(s0)), _ => Box::new(h::hammond().phase(s0)) };
    u.set_sample_rate(sr);
    let st = gen_steps(src, N);
    if negative { ctx.label("negative frequency"); }
    let name = RECIPES[k];
    ctx.note(format!("{} at {} Hz, rate {}, phase {}", name, f, sr, p0));
    ctx.nontrivial();
    let mut y = render(&mut *u, &vec![vec![if negative { -f } else { f } as f32; N]], 0, &st).remove(0);
    if negative { y.reverse(); }
    for (i, v) in y.iter().enumerate() { ensure!(v.abs() <= 1.03, format!("{} range", name), "sample {} is {} at {} Hz", i, v, f); }
    let (r1, i1) = dft(&y, bin);
    let a1 = r1.hypot(i1);
    let mut total: f64 = y.iter().map(|v| (*v as f64).powi(2)).sum::<f64>() * 2.0 / N as f64;
    let mean = y.iter().map(|v| *v as f64).sum::<f64>() / N as f64;
    ensure!(mean.abs() < 1.0e-3, format!("{} has an offset", name), "mean {} at {} Hz rate {}", mean, f, sr);
    let mut b = bin;
    let mut i = 1;
    // Upper partials fade out before the band edge.
    while b < N / 2 && (b as f64 * sr / N as f64) < 22050.0 {
        let (re, im) = dft(&y, b);
        total -= re * re + im * im;
        if b as f64 * sr / N as f64 <= 14000.0 && f < 14000.0 {
            let (a, p) = recipe(k, i);
            // A sine of phase q has the coefficient (sin q, -cos q).
            let q = TAU * (p + i as f64 * (p0 as f64 + f / sr));
            let (er, ei) = (q.sin(), -q.cos());
            let (along, across) = ((re * er + im * ei), (im * er - re * ei));
            // The table interpolator attenuates upper partials somewhat, the more the closer they are to the band edge.
            let x = 1.42 * b as f64 * sr / N as f64 / 88000.0;
            let low = 0.9313 * (TAU * x / 2.0).cos() + 0.0687 * (TAU * x * 1.5).cos();
            let slack = 5.0e-3 * a * a1 + 3.0e-4 + a * a1 * TAU * i as f64 * 1.0e-7 * N as f64;
            ensure!(along <= a * a1 * 1.003 / 0.99 + slack && along >= a * a1 * low - slack && across.abs() <= slack, format!("{} partial", name), "partial {} of {} Hz at rate {} phase {}: amplitude {:.5} (out of phase {:.5}), expected {:.5} from amplitude {} and phase {}", i, f, sr, p0, along, across, a * a1, a, p);
        }
        b += bin;
        i += 1;
    }
    if f < 14000.0 { ensure!(a1 > 0.2 && a1 < 1.4, format!("{} level", name), "the first partial has amplitude {} at {} Hz", a1, f); }
    // Everything else is aliasing, interpolation noise and rounding.
    ensure!(total <= 4.0e-6, format!("{} aliasing", name), "energy {:e} outside the partials at {} Hz (bin {}), rate {}", total, f, bin, sr);
    Ok(())
}

/// A wavetable with any pitch range, density and partial recipe: band-limited over the whole range.
fn custom(src: &mut Src, ctx: &mut Ctx) -> Res {
    let tpo = *src.pick(&[1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 10.0]);
    let lo = src.logf(16.0, 300.0);
    let hi = lo * src.logf(if tpo < 2.0 { 4.5 } else { 3.0 }, 20000.0 / lo);
    let seed = src.seed();
    let weight = |i: u32| if i == 1 { 1.0 } else { (0.55 + 0.45 * rnd11(seed, i as u64) as f64) / i as f64 };
    let offset = |i: u32| 0.5 + 0.5 * rnd11(seed, 1_000_000 + i as u64) as f64;
    let t = Arc::new(Wavetable::new(lo, hi, tpo, &|i| offset(i), &|_, i| weight(i)));
    // Pitches of the tables, as documented.
    let count = ((hi / lo).log2() * tpo).floor() as i32;
    let last = lo * (count as f64 / tpo).exp2();
    const N: usize = 4096;
    let sr = *src.pick(HIGH_RATES);
    // The upper end of the range is as good as any.
    let bin = (if src.chance(1, 3) { last * src.f64(0.75, 0.999) } else { src.logf(lo, last) }) * N as f64 / sr;
    let bin = bin.floor().max(1.0) as usize;
    let f = bin as f64 * sr / N as f64;
    if f < lo { return Ok(()); }
    let factor = (2.0 / tpo).exp2();
    let limit = (20000.0 / factor).min(17000.0);
    let p0 = src.f32(0.0, 1.0);
    let mut u: Un = Box::new(An(WaveSynth::<U1>::new(t)));
    u.set(Setting::phase(p0));
    u.reset();
    u.set_sample_rate(sr);
    let desc = format!("{f} Hz (bin {bin}) at rate {sr} from a table of {lo}..{hi} Hz with {tpo} per octave, phase {p0}");
    ctx.note(&desc);
    let st = gen_steps(src, N);
    let y = render(&mut *u, &vec![vec![f as f32; N]], 0, &st).remove(0);
    for (i, v) in y.iter().enumerate() { ensure!(v.abs() <= 1.03, "custom range", "sample {i} is {v}: {desc}"); }
    let (r1, i1) = dft(&y, bin);
    let a1 = r1.hypot(i1);
    ensure!(a1 > 0.05, "custom level", "the first partial has amplitude {a1}: {desc}");
    let mut total: f64 = y.iter().map(|v| (*v as f64).powi(2)).sum::<f64>() * 2.0 / N as f64;
    let (mut b, mut i) = (bin, 1);
    while b < N / 2 && (b as f64 * sr / N as f64) < 22050.0 {
        let (re, im) = dft(&y, b);
        total -= re * re + im * im;
        let pf = b as f64 * sr / N as f64;
        if pf <= limit && f <= limit {
            let a = weight(i);
            let q = TAU * (offset(i) + i as f64 * (p0 as f64 + f / sr));
            let (er, ei) = (q.sin(), -q.cos());
            let (along, across) = ((re * er + im * ei), (im * er - re * ei));
            let x = factor * pf / 88000.0;
            let low = 0.9313 * (TAU * x / 2.0).cos() + 0.0687 * (TAU * x * 1.5).cos();
            let slack = 5.0e-3 * a * a1 + 3.0e-4 + a * a1 * TAU * i as f64 * 1.0e-7 * N as f64;
            ensure!(along <= a * a1 * 1.003 / 0.99 + slack && along >= a * a1 * low - slack && across.abs() <= slack, "custom partial", "partial {i}: amplitude {along:.5} (out of phase {across:.5}), expected {:.5}: {desc}", a * a1);
        }
        b += bin;
        i += 1;
    }
    if f >= lo && f <= last * 0.9999 {
        ctx.nontrivial();
        ensure!(total <= 1.0e-5, "custom aliasing", "energy {total:e} outside the partials: {desc}");
    }
    Ok(())
}

/// The pulse is the difference of two saws apart by the pulse width.
fn pulse(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(HIGH_RATES);
    const N: usize = 2048;
    let bin = src.logf(2.0, 10000.0 / sr * N as f64).round() as usize;
    let f = bin as f64 * sr / N as f64;
    let (p0, w) = (src.f32(0.0, 1.0), src.f32(0.0, 1.0));
    let mut u: Un = Box::new(h::pulse().phase(p0));
    let mut s: Un = Box::new(h::saw().phase(p0));
    u.set_sample_rate(sr);
    s.set_sample_rate(sr);
    let n = N + 8;
    let y = render(&mut *u, &vec![vec![f as f32; n], vec![w; n]], 0, &gen_steps(src, n)).remove(0);
    let z = render(&mut *s, &vec![vec![f as f32; n]], 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("pulse {} Hz width {} phase {} rate {}", f, w, p0, sr));
    if w > 0.0 && w < 1.0 { ctx.nontrivial(); }
    let mut b = bin;
    let mut i = 1;
    while b as f64 * sr / (N as f64) < 14000.0 {
        let (yr, yi) = dft(&y[8..], b);
        let (zr, zi) = dft(&z[8..], b);
        let q = TAU * i as f64 * w as f64;
        // z (1 - e^{iq})
        let (cr, ci) = (1.0 - q.cos(), -q.sin());
        let (wr, wi) = (zr * cr - zi * ci, zr * ci + zi * cr);
        ensure!((yr - wr).hypot(yi - wi) <= 6.0e-3 / i as f64 + 6.0e-4, "pulse partial", "partial {} of {} Hz, width {}: ({}, {}), expected ({}, {})", i, f, w, yr, yi, wr, wi);
        b += bin;
        i += 1;
    }
    Ok(())
}

/// The phase driven synthesizer equals the frequency driven one, and a table read in parallel equals single reads.
fn tables(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let t = match src.below(6) { 0 => h::saw_table(), 1 => h::square_table(), 2 => h::triangle_table(), 3 => h::organ_table(), 4 => h::soft_saw_table(), _ => h::hammond_table() };
    let n = src.size(2, 200);
    let f = src.logf(20.0, 0.45 * sr.min(44100.0)) as f32;
    // Phases may run backwards, too.
    let backward = src.chance(1, 3);
    let p0 = src.f32(0.0, 1.0);
    let mut u: Un = Box::new(An(WaveSynth::<U2>::new(t.clone())));
    u.set(Setting::phase(p0));
    u.reset();
    u.set_sample_rate(sr);
    let y = render(&mut *u, &vec![vec![if backward { -f } else { f }; n]], 0, &gen_steps(src, n));
    let mut v: Un = Box::new(An(PhaseSynth::new(t.clone())));
    v.set_sample_rate(sr);
    let shift = src.int(-2, 2) as f32;
    let z = render(&mut *v, &vec![y[1].iter().map(|p| p + shift).collect()], 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("{} Hz at {} phase {} shift {} backward {}", f, sr, p0, shift, backward));
    ctx.nontrivial();
    for i in 1..n {
        // The frequency deduced from rounded phases is slightly off, as is the phase after removing whole cycles.
        ensure!((y[0][i] - z[i]).abs() <= 2.0e-2, "phase synthesizer", "sample {}: {} from the frequency and {} from the phase {} ({} Hz at {})", i, y[0][i], z[i], y[1][i], f, sr);
    }
    let hint = src.size(0, 30);
    let ph: [f32; 8] = core::array::from_fn(|_| src.f32(0.0, 1.0));
    let (a, ta) = t.read_simd(hint, f, h::F32x::new(ph));
    for j in 0..8 {
        let (b, tb) = t.read(hint, f, ph[j]);
        ensure!(ta == tb && (a.as_array_ref()[j] - b).abs() <= 1.0e-5, "table reads", "{} Hz phase {}: {} and {}", f, ph[j], a.as_array_ref()[j], b);
        let (c, tc) = t.read(0, f, ph[j]);
        ensure!((b - c).abs() <= 1.0e-5, "table hint", "{} Hz phase {}: {} with hint {} and {} with hint 0 (tables {} {})", f, ph[j], b, hint, c, tb, tc);
    }
    Ok(())
}

/// A wavetable made from a single cycle plays that cycle.
fn from_wave(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = 1usize << src.size(4, 9);
    let parts = src.size(1, (len / 2 - 1).min(10));
    let comps: Vec<(usize, f64, f64)> = (0..parts).map(|_| (src.size(1, parts.max(1)), src.f64(0.1, 1.0), src.u01())).collect();
    let scale = src.logf(0.01, 100.0);
    let wave = |p: f64| comps.iter().map(|(k, a, q)| a * (TAU * (*k as f64 * p + q)).cos()).sum::<f64>();
    let data: Vec<f32> = (0..len).map(|i| (scale * wave(i as f64 / len as f64)) as f32).collect();
    let tpo = *src.pick(&[1.0, 2.0, 4.0]);
    let t = Arc::new(Wavetable::from_wave(20.0, 20000.0, tpo, &data));
    let peak = (0..4096).map(|i| wave(i as f64 / 4096.0).abs()).fold(0.0, f64::max);
    ctx.note(format!("single cycle of {} samples: {:?}, {} tables per octave", len, comps, tpo));
    if peak < 0.05 { return Ok(()); }
    ctx.nontrivial();
    // Low enough that no partial fades out in the tables involved.
    let f = src.logf(20.0, 300.0) as f32;
    let p0 = src.f32(0.0, 1.0);
    let mut u: Un = Box::new(An(WaveSynth::<U1>::new(t)));
    u.set(Setting::phase(p0));
    u.reset();
    let n = src.size(1, 300);
    let y = render(&mut *u, &vec![vec![f; n]], 0, &gen_steps(src, n)).remove(0);
    let w: Vec<f64> = (0..n).map(|i| wave(p0 as f64 + (i + 1) as f64 * f as f64 / 44100.0) / peak).collect();
    // The level is that of the loudest table, where some partials may have faded out: fit it.
    let ww = w.iter().map(|x| x * x).sum::<f64>();
    if ww < 1.0e-3 * n as f64 { return Ok(()); }
    let g = w.iter().zip(&y).map(|(w, y)| w * *y as f64).sum::<f64>() / ww;
    ensure!(g > 0.4 && g < 1.3, "from_wave level", "level is {} of full scale (cycle of {} samples, partials {:?})", g, len, comps);
    for i in 0..n {
        ensure!((y[i] as f64 - g * w[i]).abs() <= 0.04, "from_wave", "sample {} is {}, the wave has {} there (cycle of {} samples, partials {:?})", i, y[i], g * w[i], len, comps);
    }
    Ok(())
}

fn atomic(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = 1usize << src.size(0, 8);
    let seed = src.seed();
    let mut wave: Vec<f32> = (0..len).map(|i| rnd11(seed, i as u64)).collect();
    let t = Arc::new(AtomicTable::new(&wave));
    let mut s = AtomicSynth::<f32>::new(t.clone());
    let mode = src.below(3);
    s.set_interpolation(match mode { 0 => Interpolation::Nearest, 1 => Interpolation::Linear, _ => Interpolation::Cubic });
    let mut u: Un = Box::new(An(s));
    let sr = *src.pick(RATES);
    u.set_sample_rate(sr);
    u.reset();
    ensure!(t.len() == len, "atomic table length", "{}", t.len());
    ctx.note(format!("atomic table of {} mode {} rate {}", len, mode, sr));
    ctx.nontrivial();
    // The initial phase is pseudorandom: find it with a table that tells it.
    let probe = Arc::new(AtomicTable::new(&(0..1024).map(|i| i as f32).collect::<Vec<_>>()));
    let mut q = AtomicSynth::<f32>::new(probe);
    q.set_interpolation(Interpolation::Linear);
    let mut q: Un = Box::new(An(q));
    q.set_sample_rate(sr);
    q.reset();
    let p0 = q.filter_mono(0.0) as f64 / 1024.0;
    let mut ph = p0;
    let n = src.size(1, 200);
    let (f, _) = freq(src, n, sr * 0.49, true);
    for i in 0..n {
        if src.chance(1, 10) { let k = src.size(0, len - 1); let v = src.f32(-1.0, 1.0); t.set(k, v); wave[k] = v; ensure!(t.at(k) == v, "atomic table set", "entry {}", k); }
        let y = u.filter_mono(f[i]) as f64;
        ph += f[i] as f64 / sr;
        let c = (ph - ph.floor()) * len as f64;
        let at = |d: i64| wave[(c.floor() as i64 + d).rem_euclid(len as i64) as usize] as f64;
        let x = c - c.floor();
        let tol = (1.0e-5 + 2.0e-7 * i as f64) * len as f64;
        if x < tol || x > 1.0 - tol { continue; }
        match mode {
            0 => ensure!(y == at(0) || y == at(1), "atomic nearest", "sample {} is {} between entries {} and {}", i, y, at(0), at(1)),
            1 => { let w = at(0) + (at(1) - at(0)) * x; ensure!((y - w).abs() <= 4.0 * tol + 1.0e-6, "atomic linear", "sample {} is {}, expected {}", i, y, w); }
            _ => { let w = h::spline(at(-1), at(0), at(1), at(2), x); ensure!((y - w).abs() <= 12.0 * tol + 1.0e-6, "atomic cubic", "sample {} is {}, expected {}", i, y, w); }
        }
    }
    Ok(())
}

/// Plucked string: pitch and decay.
fn pluck(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 96000.0, 22050.0]);
    let f = src.logf32(60.0, 1500.0);
    let gain = src.f32(0.2, 1.0);
    let damp = if src.bool() { 0.0 } else { src.f32(0.0, 0.3) };
    let mut u: Un = Box::new(h::pluck(f, gain, damp));
    u.set_sample_rate(sr);
    u.reset();
    if src.bool() { u.allocate(); }
    let n = (sr * 0.6) as usize;
    let y = render(&mut *u, &vec![vec![0.0; n]], 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("pluck {} Hz gain {} damping {} rate {}", f, gain, damp, sr));
    ctx.nontrivial();
    for v in &y { ensure!(v.is_finite() && v.abs() < 4.0, "pluck range", "{}", v); }
    // The fundamental over the second half, with a Hann window, in a fine scan around it.
    let m = (sr * 0.4) as usize;
    let at = |from: usize, f: f64| { let (mut re, mut im) = (0.0, 0.0); for i in 0..m { let w = 0.5 - 0.5 * (TAU * i as f64 / m as f64).cos(); let (s, c) = (TAU * f * i as f64 / sr).sin_cos(); re += w * y[from + i] as f64 * c; im += w * y[from + i] as f64 * s; } re.hypot(im) };
    let mut best = (0.0, 0.0);
    for k in -20..=20 { let g = f as f64 * (1.0 + k as f64 * 0.001 * (60.0 / f as f64).max(0.2) * 2.0); let a = at(0, g); if a > best.1 { best = (g, a); } }
    let peak = best.1;
    ensure!((best.0 / f as f64 - 1.0).abs() <= 0.006 * (60.0 / f as f64).max(0.2) * 2.0 + 0.002, "pluck pitch", "peak at {} Hz for {} Hz (damping {}, rate {})", best.0, f, damp, sr);
    let late = at((sr * 0.2) as usize, best.0);
    let want = (gain as f64).powf(0.2);
    let slack = if damp == 0.0 { 0.05 } else { 1.0 };
    ensure!(late / peak <= want * 1.05 && late / peak >= want * (1.0 - slack), "pluck decay", "the fundamental of {} Hz changes by {} in 0.2 seconds, gain {} per second (damping {}, rate {})", f, late / peak, gain, damp, sr);
    Ok(())
}

/// Dynamical systems: only the ratio of frequency and sample rate matters; the output stays bounded.
fn chaos(src: &mut Src, ctx: &mut Ctx) -> Res {
    let lorenz = src.bool();
    let f = src.logf32(1.0, if lorenz { 200.0 } else { 800.0 });
    let make = || -> Un { if lorenz { Box::new(h::lorenz()) } else { Box::new(h::rossler()) } };
    let n = src.size(1, 3000);
    let (mut a, mut b) = (make(), make());
    let k = *src.pick(&[0.5, 2.0, 4.0]);
    a.set_sample_rate(44100.0);
    b.set_sample_rate(44100.0 * k);
    let ya = render(&mut *a, &vec![vec![f; n]], 0, &gen_steps(src, n)).remove(0);
    let yb = render(&mut *b, &vec![vec![f * k as f32; n]], 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("{} {} Hz x{}", if lorenz { "lorenz" } else { "rossler" }, f, k));
    ctx.nontrivial();
    for i in 0..n {
        ensure!(ya[i].is_finite() && ya[i].abs() <= 1.3, "system range", "sample {} is {} at {} Hz", i, ya[i], f);
        if i < 50 { ensure!((ya[i] - yb[i]).abs() <= 1.0e-4, "system rate", "sample {}: {} at {} Hz, {} with everything {} times faster", i, ya[i], f, yb[i], k); }
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C22",
        rule: "phases: random frequency signals against exactly accumulated phases and the documented waveform (corners smoothed by a triangular kernel for the polynomial oscillators); fixed: constant forms against input forms; dsf: sum of partials; spectrum and pulse: Fourier coefficients of every partial below 14 kHz against the recipe, everything outside the partials is aliasing; tables, from_wave, atomic, pluck, chaos: see the code. Non-trivial when something was rendered and compared",
        assumptions: &["wavetable oscillators first advance their phase and then read; the others the reverse", "band limits are checked at 44.1 kHz and above as documented"],
        subs: vec![
            Sub { name: "phases", quick: 60000, thorough: 3000000, f: phases },
            Sub { name: "fixed", quick: 20000, thorough: 1000000, f: fixed },
            Sub { name: "dsf", quick: 6000, thorough: 300000, f: dsf },
            Sub { name: "spectrum", quick: 3000, thorough: 200000, f: spectrum },
            Sub { name: "custom", quick: 2000, thorough: 60000, f: custom },
            Sub { name: "pulse", quick: 1000, thorough: 60000, f: pulse },
            Sub { name: "tables", quick: 10000, thorough: 500000, f: tables },
            Sub { name: "from_wave", quick: 400, thorough: 20000, f: from_wave },
            Sub { name: "atomic", quick: 10000, thorough: 500000, f: atomic },
            Sub { name: "pluck", quick: 160, thorough: 6000, f: pluck },
            Sub { name: "chaos", quick: 2000, thorough: 100000, f: chaos },
        ],
    })
}
