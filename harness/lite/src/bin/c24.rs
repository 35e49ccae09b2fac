//! C24: spectral resynthesis is exact, and FFTs invert each other.
use fundsp::fft::{fix_negative, fix_nyquist, inverse_fft, real_fft};
use fundsp::hacker as h;
use fundsp::hacker::{AudioUnit, FftWindow, U0, U1, U2, U3};
use fundsp::hacker::Complex32;
use std::f64::consts::TAU;
use std::sync::{Arc, Mutex};
use vfcore::render::{gen_steps, render, rnd11, Sig};
use vfcore::*;

type C = (f64, f64);

fn cis(k: usize, n: usize) -> C { let a = TAU * (k % n) as f64 / n as f64; (a.cos(), a.sin()) }

fn gen_real(src: &mut Src, n: usize) -> Vec<f32> {
    let seed = src.seed();
    let amp = match src.below(4) { 0 => src.logf(1.0e-6, 1.0e6) as f32, _ => 1.0 };
    match src.below(4) {
        0 => { let i = src.below(n as u64) as usize; (0..n).map(|j| if i == j { amp } else { 0.0 }).collect() }
        1 => { let k = src.size(0, n / 2); let p = src.u01(); (0..n).map(|j| amp * (TAU * ((k * j % n) as f64 / n as f64 + p)).cos() as f32).collect() }
        2 => { let k = src.size(1, n); (0..n).map(|j| if j < k { amp * rnd11(seed, j as u64) } else { 0.0 }).collect() }
        _ => (0..n).map(|j| amp * rnd11(seed, j as u64)).collect(),
    }
}

fn norm(x: &[f32]) -> f64 { x.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>().sqrt() }
fn dft(x: &[f32], k: usize) -> C {
    let n = x.len();
    let mut s = (0.0, 0.0);
    for (j, x) in x.iter().enumerate() { let (c, d) = cis(k * j, n); s.0 += *x as f64 * c; s.1 -= *x as f64 * d; }
    s
}
fn bins(src: &mut Src, n: usize) -> Vec<usize> {
    if n <= 128 { (0..=n / 2).collect() } else { let mut v = vec![0, 1, n / 2 - 1, n / 2]; for _ in 0..16 { v.push(src.size(0, n / 2)); } v }
}

/// Transforms against the definition and against each other.
fn transform(src: &mut Src, ctx: &mut Ctx) -> Res {
    let lg = if src.chance(1, 10) { src.size(1, 15) } else { src.size(1, 9) };
    let n = 1usize << lg;
    let x = gen_real(src, n);
    let tol = 1.0e-6 * (2.0 + lg as f64) * norm(&x) + 1.0e-30;
    ctx.note(format!("real transform of length {}", n));
    ctx.nontrivial();
    let mut data = x.clone();
    let packed: Vec<Complex32> = { let s = real_fft(&mut data); ensure!(s.len() == n / 2, "length", "{} bins for length {}", s.len(), n); s.to_vec() };
    let mut fixed = vec![0.0f32; n + 2];
    fixed[..n].copy_from_slice(&data);
    fix_nyquist(&mut fixed);
    for k in bins(src, n) {
        let w = dft(&x, k);
        let y = (fixed[2 * k] as f64, fixed[2 * k + 1] as f64);
        let d = (y.0 - w.0).hypot(y.1 - w.1);
        ensure!(d <= tol, "forward", "bin {} of {} is {:?}, the definition gives {:?}", k, n, y, w);
        if k == 0 || k == n / 2 { ensure!(y.1 == 0.0, "forward", "bin {} of {} has imaginary part {}", k, n, y.1); }
        if k == n / 2 { ensure!((packed[0].im as f64 - w.0).abs() <= tol, "nyquist", "packed Nyquist is {}, expected {}", packed[0].im, w.0); }
        else { let p = packed[k]; ensure!((p.re as f64 - w.0).abs() <= tol && (k == 0 || (p.im as f64 - w.1).abs() <= tol), "packed", "packed bin {} of {} is {}, expected {:?}", k, n, p, w); }
    }
    // Inverse of the forward transform is the input.
    let mut full: Vec<Complex32> = vec![Complex32::ZERO; n];
    for k in 0..=n / 2 { full[k] = Complex32::new(fixed[2 * k], fixed[2 * k + 1]); }
    // Negative frequencies are to be overwritten.
    for k in n / 2 + 1..n { full[k] = Complex32::new(rnd11(1, k as u64), 7.0); }
    fix_negative(&mut full);
    for k in 1..n { ensure!(full[k] == full[n - k].conj(), "fix_negative", "bin {} of {} is not the conjugate of its negative: {} {}", k, n, full[k], full[n - k]); }
    inverse_fft(&mut full);
    for i in 0..n {
        ensure!((full[i].re as f64 - x[i] as f64).abs() <= tol && (full[i].im as f64).abs() <= tol, "inverse", "sample {} of {} returned as {}, was {}", i, n, full[i], x[i]);
    }
    Ok(())
}

fn inverse(src: &mut Src, ctx: &mut Ctx) -> Res {
    let lg = if src.chance(1, 10) { src.size(1, 15) } else { src.size(1, 9) };
    let n = 1usize << lg;
    let re = gen_real(src, n);
    let im = gen_real(src, n);
    ctx.note(format!("inverse complex transform of length {}", n));
    ctx.nontrivial();
    let tol = (1.0e-6 * (2.0 + lg as f64) * (norm(&re) + norm(&im))) / (n as f64) + 1.0e-30;
    let mut y: Vec<Complex32> = (0..n).map(|i| Complex32::new(re[i], im[i])).collect();
    inverse_fft(&mut y);
    for i in bins(src, n) {
        let mut s = (0.0, 0.0);
        for k in 0..n { let (c, d) = cis(k * i, n); let (a, b) = (re[k] as f64, im[k] as f64); s.0 += a * c - b * d; s.1 += a * d + b * c; }
        let w = (s.0 / n as f64, s.1 / n as f64);
        ensure!((y[i].re as f64 - w.0).hypot(y[i].im as f64 - w.1) <= tol, "inverse", "sample {} of {} is {}, the definition gives {:?}", i, n, y[i], w);
    }
    Ok(())
}

/// One term of a processor: output `o`, bin `k + shift` += gain * rotation * input `i`, bin `k` for k in lo..hi.
#[derive(Clone, Debug)]
struct Term { i: usize, o: usize, gain: f32, rot: f64, lo: usize, hi: usize, shift: i64, conj: bool, timed: bool }

#[derive(Clone, Debug)]
struct Seen { time: f64, time0: f64, timel: f64, latency: f64, wps: f64, dt: f64, sr: f64, length: usize, bins: usize, ins: usize, outs: usize, clear: bool, freq: Vec<f32>, spectrum: Vec<Vec<Complex32>> }

fn gain_at(t: f64) -> f64 { 0.6 + 0.4 * (t * 300.0).sin() }

fn process(w: &mut FftWindow, terms: &[Term], forward: &[(usize, usize)], seen: &Mutex<Vec<Seen>>) {
    let b = w.bins();
    let mut clear = true;
    for o in 0..w.outputs() { for k in 0..b { if w.at_output(o, k) != Complex32::ZERO { clear = false; } } }
    {
        let spectrum = (0..w.inputs()).map(|c| (0..b).map(|k| w.at(c, k)).collect()).collect();
        let s = Seen { time: w.time(), time0: w.time_at(0), timel: w.time_at(w.length()), latency: w.latency(), wps: w.windows_per_second(), dt: w.delta_time(), sr: w.sample_rate(), length: w.length(), bins: b, ins: w.inputs(), outs: w.outputs(), clear, freq: (0..b).map(|k| w.frequency(k)).collect(), spectrum };
        seen.lock().unwrap().push(s);
    }
    for (i, o) in forward { w.forward(*i, *o); }
    for t in terms {
        let g = if t.timed { t.gain * gain_at(w.time()) as f32 } else { t.gain };
        let r = Complex32::from_polar(g, (TAU * t.rot) as f32);
        for k in t.lo..t.hi.min(b) {
            let j = k as i64 + t.shift;
            if j < 0 || j >= b as i64 { continue; }
            let mut x = w.at(t.i, k);
            if t.conj { x = x.conj(); }
            let y = w.at_output(t.o, j as usize) + x * r;
            w.set(t.o, j as usize, y);
        }
    }
}

/// Reference output by definition.
fn reference(x: &Sig, n: usize, l: usize, outs: usize, sr: f64, terms: &[Term], forward: &[(usize, usize)]) -> Vec<Vec<f64>> {
    let hann: Vec<f64> = (0..l).map(|i| 0.5 - 0.5 * (TAU * i as f64 / l as f64).cos()).collect();
    let tw: Vec<C> = (0..l).map(|i| cis(i, l)).collect();
    let b = l / 2 + 1;
    let mut y = vec![vec![0.0; n]; outs];
    let mut start = 0;
    while start + l <= n {
        let spec: Vec<Vec<C>> = x.iter().map(|x| (0..b).map(|k| {
            let mut s = (0.0, 0.0);
            for j in 0..l { let v = hann[j] * x[start + j] as f64; let (c, d) = tw[k * j % l]; s.0 += v * c; s.1 -= v * d; }
            s
        }).collect()).collect();
        let mut out: Vec<Vec<C>> = vec![vec![(0.0, 0.0); b]; outs];
        for (i, o) in forward { out[*o] = spec[*i].clone(); }
        let t = (start + l / 2) as f64 / sr;
        for q in terms {
            let g = q.gain as f64 * if q.timed { gain_at(t) } else { 1.0 };
            let (c, d) = ((TAU * q.rot).cos() * g, (TAU * q.rot).sin() * g);
            for k in q.lo..q.hi.min(b) {
                let j = k as i64 + q.shift;
                if j < 0 || j >= b as i64 { continue; }
                let (a, e) = spec[q.i][k];
                let e = if q.conj { -e } else { e };
                out[q.o][j as usize].0 += a * c - e * d;
                out[q.o][j as usize].1 += a * d + e * c;
            }
        }
        for o in 0..outs { for j in 0..l {
            if start + l + j >= n { break; }
            let mut s = out[o][0].0 + if j % 2 == 0 { out[o][b - 1].0 } else { -out[o][b - 1].0 };
            for k in 1..b - 1 { let (c, d) = tw[k * j % l]; s += 2.0 * (out[o][k].0 * c - out[o][k].1 * d); }
            y[o][start + l + j] += hann[j] * s / l as f64 * 2.0 / 3.0;
        } }
        start += l / 4;
    }
    y
}

fn make(ins: usize, outs: usize, l: usize, terms: Vec<Term>, fwd: Vec<(usize, usize)>, seen: Arc<Mutex<Vec<Seen>>>) -> Box<dyn AudioUnit> {
    let f = move |w: &mut FftWindow| process(w, &terms, &fwd, &seen);
    match (ins, outs) {
        (0, _) => Box::new(h::resynth::<U0, U1, _>(l, f)),
        (1, 1) => Box::new(h::resynth::<U1, U1, _>(l, f)),
        (1, 2) => Box::new(h::resynth::<U1, U2, _>(l, f)),
        (2, 1) => Box::new(h::resynth::<U2, U1, _>(l, f)),
        (2, 2) => Box::new(h::resynth::<U2, U2, _>(l, f)),
        (3, 3) => Box::new(h::resynth::<U3, U3, _>(l, f)),
        _ => unreachable!(),
    }
}

fn gen_signal(src: &mut Src, n: usize) -> Vec<f32> {
    let seed = src.seed();
    match src.below(4) {
        0 => { let i = src.below(n as u64) as usize; (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect() }
        1 => { let f = src.f64(0.0, 0.5); let p = src.u01(); (0..n).map(|j| (TAU * (f * j as f64 + p)).cos() as f32).collect() }
        2 => vec![src.f32(-1.0, 1.0); n],
        _ => (0..n).map(|j| rnd11(seed, j as u64)).collect(),
    }
}

/// Resynthesis against its definition with plain discrete Fourier transforms.
fn resynth(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = 4usize << src.size(0, 5);
    let (ins, outs) = *src.pick(&[(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (0, 1)]);
    let n = src.size(l, 4 * l + 40);
    let b = l / 2 + 1;
    let mut terms = vec![];
    let mut fwd = vec![];
    if ins > 0 {
        for o in 0..outs { if src.bool() { fwd.push((src.below(ins as u64) as usize, o)); } }
        for _ in 0..src.size(0, 3) {
            terms.push(Term {
                i: src.below(ins as u64) as usize, o: src.below(outs as u64) as usize, gain: src.f32(-1.0, 1.0),
                rot: if src.bool() { 0.0 } else { src.u01() }, lo: if src.bool() { 0 } else { src.size(0, b) }, hi: if src.bool() { b } else { src.size(0, b) },
                shift: if src.bool() { 0 } else { src.int(-3, 3) }, conj: src.chance(1, 4), timed: src.chance(1, 4),
            });
        }
    }
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0]);
    let x: Sig = (0..ins).map(|_| gen_signal(src, n)).collect();
    let seen = Arc::new(Mutex::new(vec![]));
    let mut u = make(ins, outs, l, terms.clone(), fwd.clone(), seen.clone());
    u.set_sample_rate(sr);
    if src.chance(1, 4) {
        // Leftovers of an earlier use are erased by a reset.
        let m = src.size(1, 2 * l);
        render(&mut *u, &(0..ins).map(|c| (0..m).map(|i| rnd11(c as u64, i as u64)).collect()).collect::<Sig>(), 0, &[vfcore::render::Step::Tick(m)]);
        u.reset();
        seen.lock().unwrap().clear();
        ctx.label("after reset");
    }
    if src.chance(1, 4) { u = u.clone(); }
    let steps = gen_steps(src, n);
    let y = render(&mut *u, &x, 0, &steps);
    ctx.note(format!("resynth of length {} with {} inputs and {} outputs, {} samples, forward {:?} terms {:?}", l, ins, outs, n, fwd, terms));
    let want = reference(&x, n, l, outs, sr, &terms, &fwd);
    let scale = 1.0 + terms.iter().map(|t| t.gain.abs() as f64).sum::<f64>();
    for c in 0..outs { for i in 0..n {
        ensure!((y[c][i] as f64 - want[c][i]).abs() <= 3.0e-6 * scale * (1.0 + (l as f64).log2()), "resynth", "sample {} of output {} is {}, the definition gives {}", i, c, y[c][i], want[c][i]);
        if i < l { ensure!(y[c][i] == 0.0, "latency", "sample {} of output {} is {} before one window length ({}) has passed", i, c, y[c][i], l); }
    } }
    // A forwarded channel is the input delayed by one window.
    for (i, o) in &fwd {
        if terms.iter().any(|t| t.o == *o) { continue; }
        for j in 2 * l..n { ensure!((y[*o][j] - x[*i][j - l]).abs() <= 2.0e-5, "identity", "sample {} of output {} is {}, input {} was {} one window before", j, o, y[*o][j], i, x[*i][j - l]); }
    }
    // What the processor saw.
    let seen = seen.lock().unwrap();
    let expect = if n >= l { (n - l) / (l / 4) + 1 } else { 0 };
    ensure!(seen.len() == expect, "windows", "{} windows processed in {} samples with window length {}, expected {}", seen.len(), n, l, expect);
    for (w, s) in seen.iter().enumerate() {
        let start = w * l / 4;
        ensure!(s.length == l && s.bins == b && s.ins == ins && s.outs == outs && s.clear, "shape", "window {:?}", (s.length, s.bins, s.ins, s.outs, s.clear));
        let near = |a: f64, b: f64| (a - b).abs() <= 1.0e-6 * (1.0 + b.abs());
        ensure!(near(s.time, (start + l / 2) as f64 / sr) && near(s.time0, start as f64 / sr) && near(s.timel, (start + l) as f64 / sr), "time", "window {} of length {} begins at {}, ends at {} and is centered at {}", w, l, s.time0, s.timel, s.time);
        ensure!(near(s.latency, l as f64 / sr) && near(s.wps, 4.0 * sr / l as f64) && near(s.dt, l as f64 / sr / 4.0) && near(s.sr, sr), "rates", "latency {} windows per second {} delta time {} sample rate {}", s.latency, s.wps, s.dt, s.sr);
        for k in 0..b { ensure!(near(s.freq[k] as f64, k as f64 * sr / l as f64), "frequency", "bin {} of {} has frequency {}", k, l, s.freq[k]); }
        for c in 0..ins {
            let d: Vec<f32> = (0..l).map(|j| ((0.5 - 0.5 * (TAU * j as f64 / l as f64).cos()) * x[c][start + j] as f64) as f32).collect();
            for k in 0..b {
                let e = dft(&d, k);
                let v = s.spectrum[c][k];
                ensure!((v.re as f64 - e.0).hypot(v.im as f64 - e.1) <= 2.0e-6 * (l as f64).sqrt() * (1.0 + (l as f64).log2()), "spectrum", "window {} bin {} of {} is {}, the spectrum of input {} there is {:?}", w, k, l, v, c, e);
            }
        }
    }
    if ins > 0 && n > l && (!fwd.is_empty() || !terms.is_empty()) { ctx.nontrivial(); }
    Ok(())
}

/// Identity resynthesis with long windows.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = 4usize << src.size(6, 13);
    let n = 2 * l + src.size(1, l + 100);
    let x = gen_signal(src, n);
    let seen = Arc::new(Mutex::new(vec![]));
    let mut u = make(1, 2, l, vec![], vec![(0, 1)], seen);
    let y = render(&mut *u, &vec![x.clone()], 0, &gen_steps(src, n));
    ctx.note(format!("identity with window length {}, {} samples", l, n));
    ctx.nontrivial();
    for j in 0..n {
        ensure!(y[0][j] == 0.0, "channels", "sample {} of the unused channel is {}", j, y[0][j]);
        if j >= 2 * l { ensure!((y[1][j] - x[j - l]).abs() <= 4.0e-5, "identity", "sample {} is {}, input one window ({}) before is {}", j, y[1][j], l, x[j - l]); }
    }
    Ok(())
}

/// The times a processor sees stay exact for as long as it runs.
fn clock(src: &mut Src, ctx: &mut Ctx) -> Res {
    let l = 4usize << src.size(2, 8);
    let sr = *src.pick(&[44100.0, 48000.0, 96000.0, 22050.0]);
    let n = src.logf(3.0e4, 6.0e5) as usize / 64 * 64;
    let seen: Arc<Mutex<Vec<(f64, f64, f64)>>> = Arc::new(Mutex::new(vec![]));
    let log = seen.clone();
    let mut u: Box<dyn AudioUnit> = Box::new(h::resynth::<U1, U1, _>(l, move |w: &mut FftWindow| { let e = w.length() / 4; log.lock().unwrap().push((w.time(), w.time_at(0), w.time_at(e))); }));
    u.set_sample_rate(sr);
    ctx.note(format!("window length {l}, {n} samples at {sr} Hz"));
    ctx.nontrivial();
    let (x, mut y) = (h::BufferVec::new(1), h::BufferVec::new(1));
    for _ in 0..n / 64 { u.process(64, &x.buffer_ref(), &mut y.buffer_mut()); }
    let seen = seen.lock().unwrap();
    ensure!(seen.len() == (n - l) / (l / 4) + 1, "windows", "{} windows of length {l} in {n} samples", seen.len());
    for (w, s) in seen.iter().enumerate() {
        let at = |k: usize| (w * (l / 4) + k) as f64 / sr;
        let near = |a: f64, b: f64| (a - b).abs() <= 1.0e-9 * (1.0 + b);
        ensure!(near(s.0, at(l / 2)) && near(s.1, at(0)) && near(s.2, at(l / 4)), "clock", "window {w} of length {l} at {sr} Hz begins at {} (expected {}), is centered at {} and reaches its first quarter at {}", s.1, at(0), s.0, s.2);
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C24",
        rule: "transform and inverse: FFTs of all supported lengths against the discrete Fourier transform in double precision; resynth: random processors (forwarding, gains, phase rotations, bin shifts, conjugation, time dependence) over random channel counts and schedules against overlap-added plain transforms, with everything the processor can observe compared too; long: identity with windows up to 32768. Non-trivial when a window was processed into some output",
        assumptions: &["single precision rounding is bounded by about 1e-6 log2(length) of the input norm"],
        subs: vec![
            Sub { name: "transform", quick: 20000, thorough: 300000, f: transform },
            Sub { name: "inverse", quick: 10000, thorough: 150000, f: inverse },
            Sub { name: "resynth", quick: 15000, thorough: 150000, f: resynth },
            Sub { name: "long", quick: 400, thorough: 5000, f: long },
            Sub { name: "clock", quick: 150, thorough: 3000, f: clock },
        ],
    })
}
