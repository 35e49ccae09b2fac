//! C26: oversampling and resampling are transparent.
use fundsp::GenericSequence;
use fundsp::hacker as h;
use fundsp::hacker::{An, AudioNode, AudioUnit, Frame, Oversampler, Resampler, SignalFrame, Size, U0, U1, U2, U3};
use std::f64::consts::TAU;
use std::sync::{Arc, Mutex};
use vfcore::render::{describe_steps, gen_steps, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

/// What the enclosed node observed.
#[derive(Default)]
struct Seen { rate: f64, resets: usize, input: Vec<Vec<f32>>, ticks: usize }

/// Records its inputs and plays given sequences, or copies its input.
#[derive(Clone)]
struct Inner<I: Size<f32>, O: Size<f32>> { seen: Arc<Mutex<Seen>>, play: Arc<Vec<Vec<f32>>>, copy: Option<Vec<f32>>, i: usize, _m: core::marker::PhantomData<(I, O)> }
impl<I: Size<f32>, O: Size<f32>> Inner<I, O> {
    fn new(play: Vec<Vec<f32>>, copy: Option<Vec<f32>>) -> (Arc<Mutex<Seen>>, Self) {
        let seen: Arc<Mutex<Seen>> = Default::default();
        (seen.clone(), Self { seen, play: Arc::new(play), copy, i: 0, _m: Default::default() })
    }
}
impl<I: Size<f32>, O: Size<f32>> AudioNode for Inner<I, O> {
    const ID: u64 = 9_000_001;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) { self.i = 0; let mut s = self.seen.lock().unwrap(); s.resets += 1; s.input.clear(); s.ticks = 0; }
    fn set_sample_rate(&mut self, sr: f64) { self.seen.lock().unwrap().rate = sr; }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        { let mut s = self.seen.lock().unwrap(); s.input.push(input.to_vec()); s.ticks += 1; }
        let i = self.i;
        self.i += 1;
        match &self.copy {
            Some(g) => Frame::generate(|c| if c < input.len() { input[c] * g[c] } else { 0.0 }),
            None => Frame::generate(|c| self.play[c].get(i).copied().unwrap_or(0.0)),
        }
    }
    fn route(&mut self, _input: &SignalFrame, _f: f64) -> SignalFrame { SignalFrame::new(O::USIZE) }
}

/// Amplitude and the largest residual of a sinusoid of known frequency fitted to `y`.
fn fit(y: &[f32], f: f64) -> (f64, f64, f64) {
    // Least squares on cos and sin.
    let (mut cc, mut cs, mut ss, mut yc, mut ys) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for (i, v) in y.iter().enumerate() { let (s, c) = (TAU * f * i as f64).sin_cos(); cc += c * c; cs += c * s; ss += s * s; yc += *v as f64 * c; ys += *v as f64 * s; }
    let det = cc * ss - cs * cs;
    let (a, b) = ((yc * ss - ys * cs) / det, (ys * cc - yc * cs) / det);
    let res = y.iter().enumerate().map(|(i, v)| { let (s, c) = (TAU * f * i as f64).sin_cos(); (*v as f64 - a * c - b * s).abs() }).fold(0.0, f64::max);
    (a.hypot(b), (-b).atan2(a), res)
}

const RATES: &[f64] = &[44100.0, 48000.0, 96000.0, 22050.0];

/// The enclosed node runs at twice the rate on the band limited input, channel by channel.
fn up(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(300, 600);
    let ch = src.size(1, 3);
    let active = src.below(ch as u64) as usize;
    // Normalized to the outer sample rate; the passband ends at 0.4.
    let f = match src.below(3) { 0 => src.f64(0.37, 0.385), 1 => src.logf(0.01, 0.38), _ => src.f64(0.01, 0.38) };
    let amp = src.logf(0.01, 10.0);
    let p = src.u01();
    let tone: Vec<f32> = (0..n).map(|i| (amp * (TAU * (f * i as f64 + p)).cos()) as f32).collect();
    let x: Sig = (0..ch).map(|c| if c == active { tone.clone() } else { vec![0.0; n] }).collect();
    let sr = *src.pick(RATES);
    let gains: Vec<f32> = (0..ch).map(|_| src.f32(-2.0, 2.0)).collect();
    macro_rules! make { ($N:ty) => {{ let (s, m) = Inner::<$N, $N>::new(vec![], Some(gains.clone())); let u: Un = if sr == 44100.0 && src.bool() { Box::new(h::oversample(An(m))) } else { let mut u: Un = Box::new(An(Oversampler::new(44100.0, m))); u.set_sample_rate(sr); u }; (s, u) }} }
    let (seen, mut u) = match ch { 1 => make!(U1), 2 => make!(U2), _ => make!(U3) };
    ensure!(seen.lock().unwrap().rate == 2.0 * sr, "rate", "the enclosed node has sample rate {} when the outer rate is {}", seen.lock().unwrap().rate, sr);
    if src.chance(1, 3) {
        let m = src.size(1, 200);
        render(&mut *u, &(0..ch).map(|c| (0..m).map(|i| rnd11(c as u64, i as u64)).collect()).collect::<Sig>(), 0, &gen_steps(src, m));
        u.reset();
        ctx.label("after reset");
    }
    let steps = gen_steps(src, n);
    let y = render(&mut *u, &x, 0, &steps);
    ctx.note(format!("{} channels at {} Hz, tone {} of sample rate in channel {}, {}", ch, sr, f, active, describe_steps(&steps)));
    ctx.nontrivial();
    let s = seen.lock().unwrap();
    ensure!(s.ticks == 2 * n, "ticks", "the enclosed node was run for {} samples in {} outer samples", s.ticks, n);
    for c in 0..ch {
        let z: Vec<f32> = s.input[100..].iter().map(|v| v[c]).collect();
        if c != active {
            ensure!(s.input.iter().all(|v| v[c] == 0.0) && y[c].iter().all(|v| *v == 0.0), "channels", "channel {} is not silent while only channel {} has input", c, active);
            continue;
        }
        // Inner input is the same tone at half the normalized frequency and nothing else.
        let (a, _, res) = fit(&z, f / 2.0);
        ensure!((a / amp - 1.0).abs() <= 0.012, "up gain", "tone at {} of sample rate has amplitude {} in the enclosed node, {} outside", f, a, amp);
        ensure!(res <= 0.012 * amp, "images", "tone at {} of sample rate comes with other components up to {} times its amplitude in the enclosed node", f, res / amp);
        let (b, _, res) = fit(&y[c][50..], f);
        let want = amp * gains[c].abs() as f64;
        ensure!((b - want).abs() <= 0.02 * want + 1.0e-6, "gain", "tone at {} of sample rate is output with amplitude {}, expected {}", f, b, want);
        ensure!(res <= 2.0e-3 * want + 1.0e-6, "output", "tone at {} of sample rate is output with other components up to {}", f, res / want);
    }
    Ok(())
}

/// The output is the enclosed node's signal below the passband edge, and nothing of what is above Nyquist.
fn down(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(300, 600);
    let ch = src.size(1, 2);
    let active = src.below(ch as u64) as usize;
    let alias = src.bool();
    // Normalized to the inner sample rate.
    let f = if alias { src.f64(0.2525, 0.5) } else { match src.below(3) { 0 => src.f64(0.185, 0.1925), _ => src.f64(0.005, 0.19) } };
    let p = src.u01();
    let amp = src.logf(0.01, 10.0);
    let tone: Vec<f32> = (0..2 * n).map(|i| (amp * (TAU * (f * i as f64 + p)).cos()) as f32).collect();
    let play: Vec<Vec<f32>> = (0..ch).map(|c| if c == active { tone.clone() } else { vec![0.0; 2 * n] }).collect();
    let mut u: Un = if ch == 1 { Box::new(h::oversample(An(Inner::<U0, U1>::new(play, None).1))) } else { Box::new(h::oversample(An(Inner::<U0, U2>::new(play, None).1))) };
    ctx.note(format!("{} channels, enclosed tone {} of its sample rate in channel {}", ch, f, active));
    ctx.nontrivial();
    let steps = gen_steps(src, n);
    let y = render(&mut *u, &vec![], 0, &steps);
    for c in 0..ch { if c != active { ensure!(y[c].iter().all(|v| *v == 0.0), "channels", "channel {} is not silent while only channel {} plays", c, active); } }
    let z = &y[active][50..];
    if alias {
        let peak = z.iter().fold(0.0f32, |a, v| a.max(v.abs())) as f64;
        ensure!(peak <= 0.012 * amp, "aliasing", "tone at {} of the inner sample rate, above Nyquist, leaks into the output with amplitude {}", f, peak / amp);
    } else {
        let (a, _, res) = fit(z, 2.0 * f);
        ensure!((a / amp - 1.0).abs() <= 0.012, "down gain", "tone at {} of the inner sample rate has amplitude {} in the output, {} inside", f, a, amp);
        ensure!(res <= 0.012 * amp, "down", "tone at {} of the inner sample rate is output with other components up to {}", f, res / amp);
    }
    Ok(())
}

fn response(ir: &[f32], f: f64) -> (f64, f64) {
    let mut s = (0.0, 0.0);
    for (i, v) in ir.iter().enumerate() { let (b, a) = (TAU * f * i as f64).sin_cos(); s.0 += *v as f64 * a; s.1 -= *v as f64 * b; }
    s
}

/// A linear enclosed graph keeps its own response at twice the sample rate, delayed by a minimum phase filter pair.
fn linear(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let cut = src.logf32(200.0, 0.35 * sr as f32);
    let q = src.f32(0.3, 3.0);
    let k = src.below(5);
    let d = src.size(1, 20) as f32;
    macro_rules! both { ($e:expr) => {{ let a: Un = Box::new(h::oversample($e)); let b: Un = Box::new($e); (a, b) }} }
    let (mut u, mut v) = match k {
        0 => both!(h::lowpass_hz(cut, q)),
        1 => both!(h::highpass_hz(cut, q)),
        2 => both!(h::lowpole_hz(cut)),
        3 => both!(h::delay(d / 44100.0) * 0.5),
        _ => both!(h::pass() & h::highpole_hz(cut) * 0.3),
    };
    let name = ["lowpass", "highpass", "lowpole", "delay", "mix"][k as usize];
    let mut w: Un = Box::new(h::oversample(h::pass()));
    u.set_sample_rate(sr);
    v.set_sample_rate(2.0 * sr);
    w.set_sample_rate(sr);
    let n = 6000;
    let imp = |n: usize| { let mut x = vec![0.0; n]; x[0] = 1.0; vec![x] };
    let a = render(&mut *u, &imp(n), 0, &gen_steps(src, n)).remove(0);
    let b = render(&mut *v, &imp(2 * n), 0, &gen_steps(src, 2 * n)).remove(0);
    let c = render(&mut *w, &imp(n), 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("oversampled {} {} Hz Q {} delay {} at {} Hz", name, cut, q, d, sr));
    ctx.nontrivial();
    for _ in 0..8 {
        let f = src.f64(0.01, 0.385);
        let (x, y, z) = (response(&a, f), response(&b, f / 2.0), response(&c, f));
        let e = (y.0 * z.0 - y.1 * z.1, y.0 * z.1 + y.1 * z.0);
        let scale = 1.0 + y.0.hypot(y.1);
        ensure!((x.0 - e.0).hypot(x.1 - e.1) <= 2.0e-3 * scale, name, "response at {} Hz is {:?}, the enclosed graph at {} Hz has {:?} which gives {:?}", f * sr, x, 2.0 * sr, y, e);
        // A pass is transparent with a small, nearly constant delay.
        ensure!((z.0.hypot(z.1) - 1.0).abs() <= 0.012, "pass", "gain {} at {} Hz", z.0.hypot(z.1), f * sr);
    }
    let delay = |f: f64| { let z = response(&c, f); -z.1.atan2(z.0) / (TAU * f) };
    let d0 = delay(0.001);
    ensure!(d0 > 0.0 && d0 < 4.0, "delay", "delay of an oversampled pass is {} samples", d0);
    let f = src.f64(0.002, 0.15);
    ensure!((delay(f) - d0).abs() <= 0.2, "delay", "delay of an oversampled pass is {} samples at {} Hz but {} at low frequencies", delay(f), f * sr, d0);
    Ok(())
}

fn spline(y0: f64, y1: f64, y2: f64, y3: f64, x: f64) -> f64 {
    y1 + x / 2.0 * (y2 - y0 + x * (2.0 * y0 - 5.0 * y1 + 4.0 * y2 - y3 + x * (3.0 * (y1 - y2) + y3 - y0)))
}

/// Resampling against cubic interpolation at the accumulated position.
fn resample(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 600);
    let kind = src.below(6);
    let seed = src.seed();
    let base = match src.below(4) { 0 => src.logf32(0.001, 10.0), 1 => src.size(0, 8) as f32, 2 => src.size(0, 64) as f32 / 16.0, _ => 1.0 };
    let speed: Vec<f32> = (0..n).map(|i| match kind {
        0 | 1 => base,
        2 => base * (1.0 + 0.5 * rnd11(seed, i as u64)),
        3 => rnd11(seed, i as u64) * 3.0,
        4 => if (i / 7) % 2 == 0 { 0.0 } else { base },
        _ => if i % 50 == 49 { 300.0 } else { 1.5 },
    }).collect();
    // Position after each step; negative speeds stand still.
    let mut pos = 1.0f64;
    let p: Vec<f64> = speed.iter().map(|s| { pos += (*s as f64).max(0.0); pos }).collect();
    let need = pos as usize + 8;
    let ch = src.size(1, 2);
    let g = src.seed();
    let play: Vec<Vec<f32>> = (0..ch).map(|c| (0..need).map(|i| rnd11(g ^ c as u64, i as u64)).collect()).collect();
    let sr = *src.pick(RATES);
    macro_rules! make { ($N:ty) => {{ let (s, m) = Inner::<U0, $N>::new(play.clone(), None); let u: Un = if src.bool() { Box::new(h::resample(An(m))) } else { Box::new(An(Resampler::new(44100.0, m))) }; (s, u) }} }
    let (seen, mut u) = if ch == 1 { make!(U1) } else { make!(U2) };
    ensure!(seen.lock().unwrap().rate == 44100.0, "rate", "the enclosed generator has sample rate {}", seen.lock().unwrap().rate);
    u.set_sample_rate(sr);
    ensure!(seen.lock().unwrap().rate == sr, "rate", "the enclosed generator has sample rate {}, outer rate is {}", seen.lock().unwrap().rate, sr);
    if src.chance(1, 3) {
        let m = src.size(1, 200);
        render(&mut *u, &vec![vec![0.77; m]], 0, &gen_steps(src, m));
        u.reset();
        ctx.label("after reset");
    }
    let steps = gen_steps(src, n);
    ctx.note(format!("{} channels, speed kind {} base {}, {}", ch, kind, base, describe_steps(&steps)));
    let y = render(&mut *u, &vec![speed.clone()], 0, &steps);
    for i in 0..n {
        let k = p[i].floor();
        let d = p[i] - k;
        let k = k as usize;
        for c in 0..ch {
            let x = |j: usize| play[c][j] as f64;
            let w = spline(x(k - 1), x(k), x(k + 1), x(k + 2), d);
            let tol = if d == 0.0 { 0.0 } else { 2.0e-6 };
            ensure!((y[c][i] as f64 - w).abs() <= tol, "resample", "sample {} of channel {} is {}, cubic interpolation at position {} gives {}", i, c, y[c][i], p[i], w);
        }
    }
    // No more of the generator is consumed than needed.
    let t = seen.lock().unwrap().ticks;
    ensure!(t >= p[n - 1] as usize + 3 && t <= p[n - 1] as usize + 8, "consumed", "{} samples of the generator used at position {}", t, p[n - 1]);
    if pos > 1.0 { ctx.nontrivial(); }
    Ok(())
}

/// Oversampling twice, and oversampled resampling: rates multiply.
fn nested(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let (s1, m1) = Inner::<U1, U1>::new(vec![], Some(vec![1.0]));
    let (s2, m2) = Inner::<U0, U1>::new(vec![(0..4000).map(|i| rnd11(5, i)).collect()], None);
    let n = src.size(60, 200);
    let a = src.below(3);
    let mut u: Un = match a { 0 => Box::new(h::oversample(h::oversample(An(m1)))), 1 => Box::new(h::oversample(h::resample(An(m2)))), _ => Box::new(h::oversample(h::pass() * 0.5 >> An(m1))) };
    u.set_sample_rate(sr);
    let steps = [Step::Tick(n)];
    let y = render(&mut *u, &vec![vec![1.0; n]], 0, &steps).remove(0);
    ctx.note(format!("nesting {} at {} Hz for {} samples", a, sr, n));
    ctx.nontrivial();
    let get = |s: &Mutex<Seen>| { let s = s.lock().unwrap(); (s.rate, s.ticks) };
    let ((rate, ticks), want, per) = match a { 0 => (get(&s1), 4.0, 4), 1 => (get(&s2), 2.0, 2), _ => (get(&s1), 2.0, 2) };
    ensure!(rate == want * sr, "nested rate", "innermost sample rate is {}, expected {} times {}", rate, want, sr);
    ensure!(ticks >= per * n && ticks <= per * n + 8, "nested ticks", "innermost ran {} samples in {} outer samples", ticks, n);
    if a == 0 { ensure!((y[n - 1] - 1.0).abs() <= 0.01, "nested", "constant 1 becomes {}", y[n - 1]); }
    if a == 2 { ensure!((y[n - 1] - 0.5).abs() <= 0.005, "nested", "constant 0.5 becomes {}", y[n - 1]); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C26",
        rule: "up and down: random tones seen by, or played by, an enclosed node that records what it gets: level, purity, aliasing, silence of other channels, rate and tick count; linear: response of an oversampled linear graph against the graph at twice the rate times an oversampled pass; resample: random speed signals against cubic interpolation at the accumulated position. Non-trivial when a signal went through",
        assumptions: &["passband ends at 0.385 of the sample rate (gain within 0.1 dB), stopband starts at Nyquist (-40 dB, what the coefficients give)", "the resampler starts from its second sample, as the code says"],
        subs: vec![
            Sub { name: "up", quick: 30000, thorough: 300000, f: up },
            Sub { name: "down", quick: 40000, thorough: 500000, f: down },
            Sub { name: "linear", quick: 1500, thorough: 20000, f: linear },
            Sub { name: "resample", quick: 150000, thorough: 5000000, f: resample },
            Sub { name: "nested", quick: 2000, thorough: 100000, f: nested },
        ],
    })
}
