//! C27: feedback loops equal their one-sample-delay recurrence.
use fundsp::hacker as h;
use fundsp::hacker::{An, AttoHash, AudioNode, AudioUnit, FeedbackUnit, Frame, SignalFrame, Size, U1, U16, U2, U3, U4, U8};
use fundsp::GenericSequence;
use vfcore::render::{describe_steps, gen_steps, render, rnd11, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

/// A stateful, nonlinear processor with cross talk whose behaviour depends on the sample rate.
#[derive(Clone, Debug)]
struct Law { a: Vec<f64>, b: Vec<f64>, lag: usize, limit: f64, rated: bool }
impl Law {
    fn gen(src: &mut Src, n: usize, total: f64) -> Law {
        let a: Vec<f64> = (0..n).map(|_| src.f64(-total, total)).collect();
        let b = a.iter().map(|a| if src.bool() { 0.0 } else { (total - a.abs()) * src.f64(-0.9, 0.9) }).collect();
        Law { a, b, lag: if src.bool() { 0 } else { src.size(1, 9) }, limit: if src.bool() { 1.0e9 } else { src.f64(0.3, 2.0) }, rated: src.bool() }
    }
}
#[derive(Clone)]
struct Model { law: Law, rate: f64, hist: Vec<Vec<f64>> }
impl Model {
    fn new(law: Law, rate: f64) -> Model { Model { law, rate, hist: vec![] } }
    fn step(&mut self, x: &[f64]) -> Vec<f64> {
        self.hist.push(x.to_vec());
        let k = self.hist.len() - 1;
        let n = x.len();
        if k < self.law.lag { return vec![0.0; n]; }
        let x = &self.hist[k - self.law.lag];
        let g = if self.law.rated { (44100.0 / self.rate).min(1.0) } else { 1.0 };
        (0..n).map(|c| (g * (self.law.a[c] * x[c] + self.law.b[c] * x[(c + 1) % n])).clamp(-self.law.limit, self.law.limit)).collect()
    }
}
#[derive(Clone)]
struct Proc<N: Size<f32>> { m: Model, _m: core::marker::PhantomData<N> }
impl<N: Size<f32>> Proc<N> { fn new(law: Law) -> Self { Self { m: Model::new(law, 44100.0), _m: Default::default() } } }
impl<N: Size<f32>> AudioNode for Proc<N> {
    const ID: u64 = 9_000_002;
    type Inputs = N;
    type Outputs = N;
    fn reset(&mut self) { self.m.hist.clear(); }
    fn set_sample_rate(&mut self, sr: f64) { self.m.rate = sr; }
    fn tick(&mut self, input: &Frame<f32, N>) -> Frame<f32, N> {
        let v: Vec<f64> = input.iter().map(|x| *x as f64).collect();
        let y = self.m.step(&v);
        Frame::generate(|c| y[c] as f32)
    }
    fn route(&mut self, _input: &SignalFrame, _f: f64) -> SignalFrame { SignalFrame::new(N::USIZE) }
}

fn hadamard(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n).map(|i| (0..n).map(|j| if (i & j).count_ones() % 2 == 0 { x[j] } else { -x[j] }).sum::<f64>() / (n as f64).sqrt()).collect()
}

const RATES: &[f64] = &[44100.0, 48000.0, 96000.0, 22050.0, 8000.0];

fn gen_x(src: &mut Src, ch: usize, n: usize) -> Sig {
    let seed = src.seed();
    let kind = src.below(3);
    (0..ch).map(|c| (0..n).map(|i| match kind { 0 => if i == 0 && c == 0 { 1.0 } else { 0.0 }, 1 => rnd11(seed ^ c as u64, i as u64), _ => if (i / 17) % 3 == 0 { rnd11(seed, (i + c) as u64) } else { 0.0 } }).collect()).collect()
}

fn prepare(src: &mut Src, ctx: &mut Ctx, u: &mut Un, sr: f64) {
    if src.bool() { u.ping(false, AttoHash::new(src.seed())); }
    u.set_sample_rate(sr);
    if src.chance(1, 3) {
        let m = src.size(1, 200);
        let ch = u.inputs();
        render(&mut **u, &(0..ch).map(|c| (0..m).map(|i| rnd11(99 + c as u64, i as u64)).collect()).collect::<Sig>(), 0, &gen_steps(src, m));
        u.reset();
        ctx.label("after reset");
    }
    if src.chance(1, 4) { *u = u.clone(); }
}

/// feedback, feedback2, fdn and fdn2 around arbitrary processors.
fn nodes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(4);
    let ch = if kind < 2 { *src.pick(&[1usize, 2, 3, 4]) } else { *src.pick(&[1usize, 2, 4, 8, 16]) };
    let law = Law::gen(src, ch, 0.95);
    let law2 = Law::gen(src, ch, 1.0);
    macro_rules! make { ($N:ty) => {{ let x = An(Proc::<$N>::new(law.clone())); let y = An(Proc::<$N>::new(law2.clone())); let u: Un = match kind { 0 => Box::new(h::feedback::<$N, _>(x)), 1 => Box::new(h::feedback2::<$N, _, _>(x, y)), 2 => Box::new(h::fdn::<$N, _>(x)), _ => Box::new(h::fdn2::<$N, _, _>(x, y)) }; u }} }
    macro_rules! odd { ($N:ty) => {{ let x = An(Proc::<$N>::new(law.clone())); let y = An(Proc::<$N>::new(law2.clone())); let u: Un = if kind == 0 { Box::new(h::feedback::<$N, _>(x)) } else { Box::new(h::feedback2::<$N, _, _>(x, y)) }; u }} }
    let mut u: Un = match ch { 1 => make!(U1), 2 => make!(U2), 3 => odd!(U3), 4 => make!(U4), 8 => make!(U8), _ => make!(U16) };
    let name = ["feedback", "feedback2", "fdn", "fdn2"][kind as usize];
    let sr = *src.pick(RATES);
    prepare(src, ctx, &mut u, sr);
    let n = src.size(1, 200);
    let x = gen_x(src, ch, n);
    let steps = gen_steps(src, n);
    ctx.note(format!("{} of {:?} and {:?} at {} Hz, {}", name, law, law2, sr, describe_steps(&steps)));
    ctx.nontrivial();
    let y = render(&mut *u, &x, 0, &steps);
    let mut m = Model::new(law, sr);
    let mut m2 = Model::new(law2, sr);
    let mut fb = vec![0.0; ch];
    for i in 0..n {
        let v: Vec<f64> = (0..ch).map(|c| x[c][i] as f64 + fb[c]).collect();
        let w = m.step(&v);
        for c in 0..ch { ensure!((y[c][i] as f64 - w[c]).abs() <= 2.0e-5 * (1.0 + w[c].abs()), name, "sample {} of channel {} is {}, the recurrence gives {}", i, c, y[c][i], w[c]); }
        fb = if kind % 2 == 1 { m2.step(&w) } else { w };
        if kind >= 2 { fb = hadamard(&fb); }
    }
    Ok(())
}

/// The run-time feedback unit: delayed output mixed into the input.
fn unit(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ch = src.size(1, 4);
    let law = Law::gen(src, ch, 0.95);
    let sr0 = *src.pick(RATES);
    let sr = *src.pick(RATES);
    let delay = match src.below(4) { 0 => 0.0, 1 => src.size(0, 200) as f64 / sr, 2 => src.f64(0.0, 0.005), _ => *src.pick(&[1.0f64, 31.0, 32.0, 33.0, 63.0, 64.0, 65.0, 127.0, 128.0]) / sr };
    macro_rules! make { ($N:ty) => { Box::new(An(Proc::<$N>::new(law.clone()))) as Un } }
    let inner = match ch { 1 => make!(U1), 2 => make!(U2), 3 => make!(U3), _ => make!(U4) };
    let mut u: Un = Box::new(FeedbackUnit::new(delay, inner));
    if src.bool() {
        // Different sample rate first.
        u.set_sample_rate(sr0);
        if src.bool() { let m = src.size(1, 100); render(&mut *u, &(0..ch).map(|_| vec![0.5; m]).collect::<Sig>(), 0, &gen_steps(src, m)); u.reset(); }
    }
    prepare(src, ctx, &mut u, sr);
    u.allocate();
    let n = src.size(1, 600);
    let x = gen_x(src, ch, n);
    let steps = gen_steps(src, n);
    let d = ((delay * sr).round().max(1.0)) as usize;
    // Ties are decided by rounding.
    if ((delay * sr).fract() - 0.5).abs() < 1.0e-6 { return Ok(()); }
    ctx.note(format!("feedback unit with delay {} s ({} samples) around {:?} at {} Hz, {}", delay, d, law, sr, describe_steps(&steps)));
    ctx.nontrivial();
    ensure!(u.inputs() == ch && u.outputs() == ch, "arity", "{} inputs and {} outputs around {} channels", u.inputs(), u.outputs(), ch);
    let y = render(&mut *u, &x, 0, &steps);
    let mut m = Model::new(law, sr);
    let mut out: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        let v: Vec<f64> = (0..ch).map(|c| x[c][i] as f64 + if i >= d { out[i - d][c] } else { 0.0 }).collect();
        let w = m.step(&v);
        for c in 0..ch { ensure!((y[c][i] as f64 - w[c]).abs() <= 2.0e-5 * (1.0 + w[c].abs()), "unit", "sample {} of channel {} is {}, the recurrence with delay {} gives {}", i, c, y[c][i], d, w[c]); }
        out.push(w);
    }
    Ok(())
}

/// Power is preserved by the Hadamard mixing matrix.
fn lossless(src: &mut Src, ctx: &mut Ctx) -> Res {
    let d: Vec<usize> = (0..8).map(|_| src.size(1, 40)).collect();
    let sr = 44100.0;
    let t: Vec<f32> = d.iter().map(|d| (*d as f64 / sr) as f32).collect();
    let mut u: Un = match src.below(3) {
        0 => Box::new(h::fdn::<U2, _>(h::delay(t[0]) | h::delay(t[1]))),
        1 => Box::new(h::fdn::<U4, _>(h::delay(t[0]) | h::delay(t[1]) | h::delay(t[2]) | h::delay(t[3]))),
        _ => Box::new(h::fdn::<U8, _>(h::delay(t[0]) | h::delay(t[1]) | h::delay(t[2]) | h::delay(t[3]) | h::delay(t[4]) | h::delay(t[5]) | h::delay(t[6]) | h::delay(t[7]))),
    };
    let ch = u.inputs();
    let n = src.size(200, 1500);
    let x: Sig = (0..ch).map(|c| { let mut v = vec![0.0; n]; v[0] = rnd11(src.seed(), c as u64); v }).collect();
    let e0: f64 = x.iter().map(|x| (x[0] as f64).powi(2)).sum();
    ctx.note(format!("lossless network of {} delays {:?}", ch, &d[..ch]));
    if e0 < 0.01 { return Ok(()); }
    ctx.nontrivial();
    let y = render(&mut *u, &x, 0, &gen_steps(src, n));
    // What is under way: outputs of the last d samples have re-entered the delays through the matrix.
    let mut out = vec![0.0; ch];
    let mut q: Vec<Vec<f64>> = (0..ch).map(|_| vec![]).collect();
    for i in 0..n {
        let fb = hadamard(&out);
        for c in 0..ch { q[c].push(x[c][i] as f64 + if i > 0 { fb[c] } else { 0.0 }); out[c] = if i >= d[c] { q[c][i - d[c]] } else { 0.0 }; ensure!((out[c] - y[c][i] as f64).abs() <= 1.0e-4, "lossless", "sample {} of channel {} is {}, expected {}", i, c, y[c][i], out[c]); out[c] = y[c][i] as f64; }
    }
    // Energy stored in the delays and the loop.
    let fb = hadamard(&out);
    let stored: f64 = (0..ch).map(|c| q[c][n - d[c]..].iter().map(|v| v * v).sum::<f64>() + fb[c] * fb[c]).sum();
    ensure!((stored / e0 - 1.0).abs() <= 2.0e-3, "energy", "energy {} became {} after {} samples", e0, stored, n);
    Ok(())
}

/// Nested allpasses, and the effects built on feedback.
fn effects(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 400);
    let x = gen_x(src, 1, n);
    let steps = gen_steps(src, n);
    let sr = *src.pick(RATES);
    let kind = src.below(5);
    match kind {
        0 | 1 => {
            let eta = src.f32(-0.95, 0.95);
            let law = Law::gen(src, 1, 0.95);
            let modulated: Vec<f32> = { let s = src.seed(); (0..n).map(|i| 0.9 * rnd11(s, i as u64)).collect() };
            let mut u: Un = if kind == 0 { Box::new(h::allnest_c(eta, An(Proc::<U1>::new(law.clone())))) } else { Box::new(h::allnest(An(Proc::<U1>::new(law.clone())))) };
            prepare(src, ctx, &mut u, sr);
            ctx.note(format!("nested allpass {} {} around {:?} at {} Hz, {}", kind, eta, law, sr, describe_steps(&steps)));
            let input = if kind == 0 { x.clone() } else { vec![x[0].clone(), modulated.clone()] };
            let y = render(&mut *u, &input, 0, &steps);
            let mut m = Model::new(law, sr);
            let mut z = 0.0;
            for i in 0..n {
                let e = if kind == 0 { eta } else { modulated[i] } as f64;
                let v = x[0][i] as f64 - e * z;
                let w = e * v + z;
                z = m.step(&[v])[0];
                ensure!((y[0][i] as f64 - w).abs() <= 2.0e-5 * (1.0 + w.abs()), "allnest", "sample {} is {}, the recurrence gives {}", i, y[0][i], w);
            }
        }
        2 => {
            // A nested allpass around an allpass keeps the energy.
            let (a, b) = (src.f32(-0.8, 0.8), src.f32(-0.8, 0.8));
            let d = src.size(1, 20);
            let mut u: Un = Box::new(h::allnest_c(a, h::allnest_c(b, h::delay((d as f64 / 44100.0) as f32))));
            ctx.note(format!("nested allpasses {} {} around a delay of {} samples", a, b, d));
            let m = 4000;
            let mut imp = vec![0.0; m];
            imp[0] = 1.0;
            let y = render(&mut *u, &vec![imp], 0, &gen_steps(src, m)).remove(0);
            let e: f64 = y.iter().map(|v| (*v as f64).powi(2)).sum();
            ensure!((e - 1.0).abs() <= 1.0e-2, "allpass energy", "impulse of energy 1 has energy {} after the nested allpass", e);
        }
        3 => {
            let fb = src.f32(-0.9, 0.9);
            let p = src.f32(0.0, 1.0);
            let mut u: Un = Box::new(h::phaser(fb, move |_| p));
            prepare(src, ctx, &mut u, sr);
            ctx.note(format!("phaser({}, {}) at {} Hz, {}", fb, p, sr, describe_steps(&steps)));
            let y = render(&mut *u, &x, 0, &steps);
            let mut st = vec![(0.0f64, 0.0f64); 10];
            let mut loopback = 0.0f64;
            for i in 0..n {
                let mut v = x[0][i] as f64 + loopback;
                for (k, s) in st.iter_mut().enumerate() {
                    let d = 2.0 + 18.0 * p as f64 + 0.1 * (k + 1) as f64;
                    let eta = (1.0 - d) / (1.0 + d);
                    let o = eta * (v - s.1) + s.0;
                    *s = (v, o);
                    v = o;
                }
                loopback = v * fb as f64;
                let w = x[0][i] as f64 + loopback;
                ensure!((y[0][i] as f64 - w).abs() <= 1.0e-4 * (1.0 + w.abs()), "phaser", "sample {} is {}, the recurrence gives {}", i, y[0][i], w);
            }
        }
        _ => {
            let fb = src.f32(-0.95, 0.95);
            let d = src.size(4, 60);
            let t = (d as f64 / sr) as f32;
            let (lo, hi) = (t * src.f32(0.2, 1.0), t * src.f32(1.0, 3.0));
            let mut u: Un = Box::new(h::flanger(fb, lo, hi, move |_| t));
            prepare(src, ctx, &mut u, sr);
            ctx.note(format!("flanger({}) with delay {} samples at {} Hz, {}", fb, d, sr, describe_steps(&steps)));
            let y = render(&mut *u, &x, 0, &steps);
            let mut u: Vec<f64> = vec![];
            let mut last = 0.0f64;
            for i in 0..n {
                u.push(x[0][i] as f64 + (fb as f64 * last).tanh());
                last = if i >= d { u[i - d] } else { 0.0 };
                let w = x[0][i] as f64 + last;
                ensure!((y[0][i] as f64 - w).abs() <= 2.0e-3, "flanger", "sample {} is {}, the recurrence gives {}", i, y[0][i], w);
            }
        }
    }
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C27",
        rule: "random processors (gains, cross talk, lag, limiting, dependence on sample rate) inside every feedback construct, under random schedules, rates, resets and clones, against the recurrence computed sample by sample in double precision; lossless networks must keep their energy; nested allpasses, phaser and flanger against their recurrences. Always non-trivial except for rounding ties of the loop delay",
        assumptions: &["loops are stable (gain below one), so that rounding does not grow"],
        subs: vec![
            Sub { name: "nodes", quick: 100000, thorough: 1000000, f: nodes },
            Sub { name: "unit", quick: 100000, thorough: 1000000, f: unit },
            Sub { name: "lossless", quick: 3000, thorough: 150000, f: lossless },
            Sub { name: "effects", quick: 60000, thorough: 600000, f: effects },
        ],
    })
}
