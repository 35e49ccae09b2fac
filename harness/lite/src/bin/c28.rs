//! C28: filters realize their specified transfer function in every form.
use fundsp::hacker as h;
use fundsp::hacker32 as h32;
use fundsp::hacker::{Adaptive, AttoHash, AudioNode, AudioUnit, Clip, Frame, Setting, Shape, Softsign, Tanh, An};
use vfcore::render::{describe_steps, gen_steps, peak, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
const RATES: &[f64] = &[44100.0, 48000.0, 96000.0, 22050.0, 8000.0, 192000.0];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K { Lowpass, Highpass, Bandpass, Notch, Peak, Allpass, Bell, Lowshelf, Highshelf, Morph, Butter, Resonator, Moog, Lowrez, Bandrez, Lowpole, Highpole, Allpole, DcBlock, Pink }
use K::*;
const ALL: &[K] = &[Lowpass, Highpass, Bandpass, Notch, Peak, Allpass, Bell, Lowshelf, Highshelf, Morph, Butter, Resonator, Moog, Lowrez, Bandrez, Lowpole, Highpole, Allpole, DcBlock, Pink];

impl K {
    fn npar(self) -> usize { match self { Pink => 0, Butter | Lowpole | Highpole | Allpole | DcBlock => 1, Bell | Lowshelf | Highshelf | Morph => 3, _ => 2 } }
    fn has_inputs(self) -> bool { !matches!(self, DcBlock | Pink) }
    fn svf(self) -> bool { matches!(self, Lowpass | Highpass | Bandpass | Notch | Peak | Allpass | Bell | Lowshelf | Highshelf) }
    fn linear(self) -> bool { !matches!(self, Moog | Lowrez | Bandrez) }
    /// Random parameters in the range of use. `mild` keeps f32 implementations well conditioned.
    fn par(self, src: &mut Src, sr: f64, mild: bool) -> Vec<f32> {
        let lo = if mild { 0.01 } else { 2.0e-4 };
        let f = match self {
            Allpole => return vec![if mild { src.logf32(0.2, 5.0) } else { src.logf32(0.02, 60.0) }],
            DcBlock => src.logf(if mild { 0.003 } else { 1.0e-4 }, 0.05) * sr,
            Lowrez | Bandrez => src.logf(lo, 0.13) * sr,
            Moog => src.logf(lo, 0.4) * sr,
            _ => src.logf(lo, 0.49) * sr,
        } as f32;
        let q = match self {
            Moog | Lowrez | Bandrez => src.f32(0.0, 0.9),
            Resonator => src.logf32(0.5, if mild { 10.0 } else { 300.0 }),
            _ => src.logf32(0.1, if mild { 10.0 } else { 60.0 }),
        };
        let g = if self == Morph { src.f32(-1.0, 1.0) } else { src.logf32(0.03, 30.0) };
        match self.npar() { 0 => vec![], 1 => vec![f], 2 => vec![f, q], _ => vec![f, q, g] }
    }
    fn fixed(self, p: &[f32], single: bool) -> Un {
        if single {
            match self {
                Lowpass => Box::new(h32::lowpass_hz(p[0], p[1])), Highpass => Box::new(h32::highpass_hz(p[0], p[1])),
                Bandpass => Box::new(h32::bandpass_hz(p[0], p[1])), Notch => Box::new(h32::notch_hz(p[0], p[1])),
                Peak => Box::new(h32::peak_hz(p[0], p[1])), Allpass => Box::new(h32::allpass_hz(p[0], p[1])),
                Bell => Box::new(h32::bell_hz(p[0], p[1], p[2])), Lowshelf => Box::new(h32::lowshelf_hz(p[0], p[1], p[2])),
                Highshelf => Box::new(h32::highshelf_hz(p[0], p[1], p[2])), Morph => Box::new(h32::morph_hz(p[0], p[1], p[2])),
                Butter => Box::new(h32::butterpass_hz(p[0])), Resonator => Box::new(h32::resonator_hz(p[0], p[1])),
                Moog => Box::new(h32::moog_hz(p[0], p[1])), Lowrez => Box::new(h32::lowrez_hz(p[0], p[1])),
                Bandrez => Box::new(h32::bandrez_hz(p[0], p[1])), Lowpole => Box::new(h32::lowpole_hz(p[0])),
                Highpole => Box::new(h32::highpole_hz(p[0])), Allpole => Box::new(h32::allpole_delay(p[0])),
                DcBlock => Box::new(h32::dcblock_hz(p[0])), Pink => Box::new(h32::pinkpass()),
            }
        } else {
            match self {
                Lowpass => Box::new(h::lowpass_hz(p[0], p[1])), Highpass => Box::new(h::highpass_hz(p[0], p[1])),
                Bandpass => Box::new(h::bandpass_hz(p[0], p[1])), Notch => Box::new(h::notch_hz(p[0], p[1])),
                Peak => Box::new(h::peak_hz(p[0], p[1])), Allpass => Box::new(h::allpass_hz(p[0], p[1])),
                Bell => Box::new(h::bell_hz(p[0], p[1], p[2])), Lowshelf => Box::new(h::lowshelf_hz(p[0], p[1], p[2])),
                Highshelf => Box::new(h::highshelf_hz(p[0], p[1], p[2])), Morph => Box::new(h::morph_hz(p[0], p[1], p[2])),
                Butter => Box::new(h::butterpass_hz(p[0])), Resonator => Box::new(h::resonator_hz(p[0], p[1])),
                Moog => Box::new(h::moog_hz(p[0], p[1])), Lowrez => Box::new(h::lowrez_hz(p[0], p[1])),
                Bandrez => Box::new(h::bandrez_hz(p[0], p[1])), Lowpole => Box::new(h::lowpole_hz(p[0])),
                Highpole => Box::new(h::highpole_hz(p[0])), Allpole => Box::new(h::allpole_delay(p[0])),
                DcBlock => Box::new(h::dcblock_hz(p[0])), Pink => Box::new(h::pinkpass()),
            }
        }
    }
    fn input(self, single: bool) -> Un {
        if single {
            match self {
                Lowpass => Box::new(h32::lowpass()), Highpass => Box::new(h32::highpass()), Bandpass => Box::new(h32::bandpass()),
                Notch => Box::new(h32::notch()), Peak => Box::new(h32::peak()), Allpass => Box::new(h32::allpass()),
                Bell => Box::new(h32::bell()), Lowshelf => Box::new(h32::lowshelf()), Highshelf => Box::new(h32::highshelf()),
                Morph => Box::new(h32::morph()), Butter => Box::new(h32::butterpass()), Resonator => Box::new(h32::resonator()),
                Moog => Box::new(h32::moog()), Lowrez => Box::new(h32::lowrez()), Bandrez => Box::new(h32::bandrez()),
                Lowpole => Box::new(h32::lowpole()), Highpole => Box::new(h32::highpole()), Allpole => Box::new(h32::allpole()),
                DcBlock | Pink => unreachable!(),
            }
        } else {
            match self {
                Lowpass => Box::new(h::lowpass()), Highpass => Box::new(h::highpass()), Bandpass => Box::new(h::bandpass()),
                Notch => Box::new(h::notch()), Peak => Box::new(h::peak()), Allpass => Box::new(h::allpass()),
                Bell => Box::new(h::bell()), Lowshelf => Box::new(h::lowshelf()), Highshelf => Box::new(h::highshelf()),
                Morph => Box::new(h::morph()), Butter => Box::new(h::butterpass()), Resonator => Box::new(h::resonator()),
                Moog => Box::new(h::moog()), Lowrez => Box::new(h::lowrez()), Bandrez => Box::new(h::bandrez()),
                Lowpole => Box::new(h::lowpole()), Highpole => Box::new(h::highpole()), Allpole => Box::new(h::allpole()),
                DcBlock | Pink => unreachable!(),
            }
        }
    }
    /// The form with a frequency input and everything else fixed.
    fn mixed(self, p: &[f32], single: bool) -> Option<Un> {
        Some(if single {
            match self {
                Lowpass => Box::new(h32::lowpass_q(p[1])), Highpass => Box::new(h32::highpass_q(p[1])), Bandpass => Box::new(h32::bandpass_q(p[1])),
                Notch => Box::new(h32::notch_q(p[1])), Peak => Box::new(h32::peak_q(p[1])), Allpass => Box::new(h32::allpass_q(p[1])),
                Bell => Box::new(h32::bell_q(p[1], p[2])), Lowshelf => Box::new(h32::lowshelf_q(p[1], p[2])), Highshelf => Box::new(h32::highshelf_q(p[1], p[2])),
                Moog => Box::new(h32::moog_q(p[1])), Lowrez => Box::new(h32::lowrez_q(p[1])), Bandrez => Box::new(h32::bandrez_q(p[1])),
                _ => return None,
            }
        } else {
            match self {
                Lowpass => Box::new(h::lowpass_q(p[1])), Highpass => Box::new(h::highpass_q(p[1])), Bandpass => Box::new(h::bandpass_q(p[1])),
                Notch => Box::new(h::notch_q(p[1])), Peak => Box::new(h::peak_q(p[1])), Allpass => Box::new(h::allpass_q(p[1])),
                Bell => Box::new(h::bell_q(p[1], p[2])), Lowshelf => Box::new(h::lowshelf_q(p[1], p[2])), Highshelf => Box::new(h::highshelf_q(p[1], p[2])),
                Moog => Box::new(h::moog_q(p[1])), Lowrez => Box::new(h::lowrez_q(p[1])), Bandrez => Box::new(h::bandrez_q(p[1])),
                _ => return None,
            }
        })
    }
    /// The setting that moves a fixed filter to parameters `p`.
    fn setting(self, p: &[f32]) -> Option<Setting> {
        Some(match self {
            Pink | Morph => return None,
            Allpole => Setting::delay(p[0]),
            Butter | Lowpole | Highpole | DcBlock => Setting::center(p[0]),
            Bell | Lowshelf | Highshelf => Setting::center_q_gain(p[0], p[1], p[2]),
            _ => Setting::center_q(p[0], p[1]),
        })
    }
    /// Biquad coefficients (b0 b1 b2 a1 a2) from the analog prototype by the bilinear transform,
    /// or from the pole and zero positions.
    fn digital(self, p: &[f32], sr: f64) -> Vec<f64> {
        let f = p.first().copied().unwrap_or(0.0) as f64;
        let q = p.get(1).copied().unwrap_or(1.0) as f64;
        let gain = p.get(2).copied().unwrap_or(1.0) as f64;
        let w = core::f64::consts::TAU * f / sr;
        let a = gain.abs().sqrt();
        // numerator and denominator in s, frequency normalized to the cutoff.
        let lp = [0.0, 0.0, 1.0];
        let hp = [1.0, 0.0, 0.0];
        let den = [1.0, 1.0 / q, 1.0];
        let (n, d, g) = match self {
            Lowpass => (lp, den, 1.0),
            Highpass => (hp, den, 1.0),
            Bandpass => ([0.0, 1.0, 0.0], den, 1.0),
            Notch => ([1.0, 0.0, 1.0], den, 1.0),
            Peak => ([1.0, 0.0, -1.0], den, 1.0),
            Allpass => ([1.0, -1.0 / q, 1.0], den, 1.0),
            Bell => ([1.0, a / q, 1.0], [1.0, 1.0 / (a * q), 1.0], 1.0),
            Lowshelf => ([1.0, a.sqrt() / q, a], [a, a.sqrt() / q, 1.0], a),
            Highshelf => ([a, a.sqrt() / q, 1.0], [1.0, a.sqrt() / q, a], a),
            Morph => { let m = gain; ([0.5 * (1.0 + m), 0.5 * m / q, 0.5 * (m - 1.0)], den, 1.0) }
            Butter => (lp, [1.0, core::f64::consts::SQRT_2, 1.0], 1.0),
            Resonator => {
                let r = (-w / (2.0 * q)).exp();
                let b = 0.5 * (1.0 - r * r).sqrt();
                return vec![b, 0.0, -b, -2.0 * r * w.cos(), r * r];
            }
            Lowpole => { let c = (-w).exp(); return vec![1.0 - c, 0.0, 0.0, -c, 0.0]; }
            Highpole => { let c = (-w).exp(); return vec![c, -c, 0.0, -c, 0.0]; }
            Allpole => { let e = (1.0 - f) / (1.0 + f); return vec![e, 1.0, 0.0, e, 0.0]; }
            DcBlock => return vec![1.0, -1.0, 0.0, -(1.0 - w), 0.0],
            Pink | Moog | Lowrez | Bandrez => unreachable!(),
        };
        // s = (z - 1) / (z + 1) / t
        let t = (w * 0.5).tan();
        let map = |c: [f64; 3]| [c[0] + c[1] * t + c[2] * t * t, -2.0 * c[0] + 2.0 * c[2] * t * t, c[0] - c[1] * t + c[2] * t * t];
        let (n, d) = (map(n), map(d));
        vec![g * n[0] / d[0], g * n[1] / d[0], g * n[2] / d[0], d[1] / d[0], d[2] / d[0]]
    }
}

/// Reference recurrence in double precision with parameters given per sample.
struct Model { k: K, s: [f64; 8] }
impl Model {
    fn new(k: K) -> Model { Model { k, s: [0.0; 8] } }
    fn step(&mut self, x: f64, p: &[f32], sr: f64) -> f64 {
        let s = &mut self.s;
        let f = p.first().copied().unwrap_or(0.0) as f64;
        let q = p.get(1).copied().unwrap_or(1.0) as f64;
        let gain = p.get(2).copied().unwrap_or(1.0) as f64;
        let pi = core::f64::consts::PI;
        match self.k {
            Pink => {
                const P: [(f64, f64); 6] = [(0.99886, 0.0555179), (0.99332, 0.0750759), (0.969, 0.153852), (0.8665, 0.3104856), (0.55, 0.5329522), (-0.7616, -0.016898)];
                let mut y = 0.5362 * x + s[6];
                for i in 0..6 { s[i] = P[i].0 * s[i] + P[i].1 * x; y += s[i]; }
                s[6] = 0.115926 * x;
                y * 0.115830421
            }
            Moog => {
                let c = 2.0 * f / sr;
                let pp = c * (1.8 - 0.8 * c);
                let k = 2.0 * (c * pi * 0.5).sin() - 1.0;
                let t1 = (1.0 - pp) * 1.386249;
                let t2 = 12.0 + t1 * t1;
                let rez = q * (t2 + 6.0 * t1) / (t2 - 6.0 * t1);
                let x = x - rez * s[3];
                let prev = [s[4], s[0], s[1], s[2]];
                let mut u = x;
                for i in 0..4 {
                    let v = (u + prev[i]) * pp - k * s[i];
                    s[i] = if i == 3 { v.tanh() } else { v };
                    u = s[i];
                }
                s[4] = x;
                s[3]
            }
            Lowrez | Bandrez => {
                let ff = 2.0 * (pi * f / sr).sin();
                let fb = q + q / (1.0 - ff);
                let hp = x - s[0];
                let bp = s[0] - s[1];
                s[0] += ff * (hp + fb * bp.tanh());
                s[1] += ff * (s[0] - s[1]);
                if self.k == Lowrez { s[1] } else { s[1] - s[0] }
            }
            Lowpole | Highpole | Allpole | DcBlock | Butter | Resonator => {
                // Direct form I.
                let c = self.k.digital(p, sr);
                let y = c[0] * x + c[1] * s[0] + c[2] * s[1] - c[3] * s[2] - c[4] * s[3];
                s[1] = s[0]; s[0] = x; s[3] = s[2]; s[2] = y;
                y
            }
            _ => {
                // Trapezoidal state variable filter.
                let a = if self.k == Morph { 1.0 } else { gain.sqrt() };
                let mut g = (pi * f / sr).tan();
                let mut k = 1.0 / q;
                match self.k { Bell => k /= a, Lowshelf => g /= a.sqrt(), Highshelf => g *= a.sqrt(), _ => () }
                let v1 = (s[0] + g * (x - s[1])) / (1.0 + g * (g + k));
                let v2 = s[1] + g * v1;
                s[0] = 2.0 * v1 - s[0];
                s[1] = 2.0 * v2 - s[1];
                let hp = x - k * v1 - v2;
                match self.k {
                    Lowpass => v2, Highpass => hp, Bandpass => v1, Notch => hp + v2, Peak => hp - v2, Allpass => hp + v2 - k * v1,
                    Morph => 0.5 * (hp - v2 + gain * x),
                    Bell => x + k * (a * a - 1.0) * v1,
                    Lowshelf => x + k * (a - 1.0) * v1 + (a * a - 1.0) * v2,
                    Highshelf => a * a * x + k * (1.0 - a) * a * v1 + (1.0 - a * a) * v2,
                    _ => unreachable!(),
                }
            }
        }
    }
}

fn gen_x(src: &mut Src, n: usize) -> Vec<f32> {
    let seed = src.seed();
    let kind = src.below(4);
    let amp = if src.bool() { 1.0 } else { src.logf32(0.01, 8.0) };
    let w = src.f64(0.0, 3.1);
    (0..n).map(|i| amp * match kind {
        0 => if i == 0 { 1.0 } else { 0.0 },
        1 => rnd11(seed, i as u64),
        2 => (w * i as f64).sin() as f32,
        _ => if (i / 23) % 2 == 0 { 1.0 } else { -0.5 },
    }).collect()
}

fn warm(src: &mut Src, ctx: &mut Ctx, u: &mut Un, k: K, sr: f64) {
    if src.bool() { u.ping(false, AttoHash::new(src.seed())); }
    u.set_sample_rate(sr);
    if src.chance(1, 3) {
        let m = src.size(1, 100);
        let ch = u.inputs();
        let p = k.par(src, sr, false);
        render(&mut **u, &(0..ch).map(|c| (0..m).map(|i| if c == 0 { rnd11(9, i as u64) } else { p[c - 1] }).collect()).collect::<Sig>(), 0, &gen_steps(src, m));
        u.reset();
        ctx.label("after reset");
    }
    if src.chance(1, 4) { *u = u.clone(); }
}

/// Compare channel 0 against the reference; tolerance is relative to the magnitudes involved.
fn compare(sig: &str, what: &str, got: &[f32], want: &[f64], xs: &[f32], gain: f64, single: bool, info: &str) -> Res {
    let pk = want.iter().fold(0.0f64, |a, b| a.max(b.abs())) + xs.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64)) * gain.max(1.0);
    let tol = if single { 0.02 } else { 4.0e-6 } * pk;
    ensure!(got.len() == want.len(), sig, "{what}: {} samples of {} ({info})", got.len(), want.len());
    for i in 0..got.len() {
        let e = (got[i] as f64 - want[i]).abs();
        ensure!(e <= tol, sig, "{what}: sample {i} is {} but the reference is {} (tolerance {tol:.3e}, {info})", got[i], want[i]);
    }
    Ok(())
}

/// Constant parameters: every form against the transfer function.
fn transfer(src: &mut Src, ctx: &mut Ctx) -> Res {
    let lin: Vec<K> = ALL.iter().copied().filter(|k| k.linear() && *k != Pink).collect();
    let k = *src.pick(&lin);
    let single = src.chance(1, 3);
    let sr = *src.pick(RATES);
    let p = k.par(src, sr, single);
    let n = src.size(1, 500);
    let xs = gen_x(src, n);
    let c = k.digital(&p, sr);
    // Transposed direct form II.
    let (mut s1, mut s2) = (0.0, 0.0);
    let want: Vec<f64> = xs.iter().map(|x| { let x = *x as f64; let y = c[0] * x + s1; s1 = c[1] * x - c[3] * y + s2; s2 = c[2] * x - c[4] * y; y }).collect();
    let form = src.below(6);
    let mut with_inputs = false;
    let (mut u, what): (Un, &str) = match form {
        0 if k.has_inputs() => { with_inputs = true; (k.input(single), "input form") }
        1 if k.has_inputs() && k.mixed(&p, single).is_some() => { with_inputs = true; (k.mixed(&p, single).unwrap(), "fixed Q form") }
        2 if k.setting(&p).is_some() => {
            let p0 = k.par(src, sr, single);
            let mut u = k.fixed(&p0, single);
            let at = src.bool();
            if at { u.set_sample_rate(sr); }
            u.set(k.setting(&p).unwrap());
            (u, "setting")
        }
        _ => (k.fixed(&p, single), "fixed form"),
    };
    warm(src, ctx, &mut u, k, sr);
    let mut input: Sig = vec![xs.clone()];
    if with_inputs { for j in 0..u.inputs() - 1 { input.push(vec![p[j]; n]); } }
    let steps = gen_steps(src, n);
    let got = render(&mut *u, &input, 0, &steps);
    ctx.note(format!("{what} {k:?} {p:?} sr {sr} single {single} {}", describe_steps(&steps)));
    if n > 32 && peak(&vec![xs.clone()]) > 0.0 { ctx.nontrivial(); }
    ctx.label(match form { 0 => "inputs", 1 => "fixed q", 2 => "setting", _ => "fixed" });
    let g = if k.npar() == 3 && k != Morph { p[2] as f64 } else { 1.0 } * p.get(1).copied().unwrap_or(1.0).max(1.0) as f64;
    compare("transfer", what, &got[0], &want, &xs, g, single, &format!("{k:?} {p:?} at {sr} Hz, single {single}, steps {}", describe_steps(&steps)))
}

/// Parameters that change: steps or audio rate, by input or by setting, with sample rate changes.
fn varying(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = *src.pick(ALL);
    let single = k.linear() && src.chance(1, 5);
    let mut sr = *src.pick(RATES);
    let n = src.size(2, 500);
    let xs = gen_x(src, n);
    let seed = src.seed();
    let mode = src.below(4);
    let by_setting = !k.has_inputs() || (k.setting(&[1.0, 1.0, 1.0]).is_some() && src.bool());
    let base = k.par(src, sr.min(44100.0), single);
    let other = k.par(src, sr.min(44100.0), single);
    // Which of the parameters move.
    let moves: Vec<bool> = (0..k.npar()).map(|_| src.chance(2, 3)).collect();
    let period = src.size(1, 80);
    let par = |i: usize| -> Vec<f32> {
        (0..k.npar()).map(|j| {
            if !moves[j] { return base[j]; }
            match mode {
                0 => base[j],
                1 => if (i / period) % 2 == 0 { base[j] } else { other[j] },
                2 => base[j] + (other[j] - base[j]) * (i as f32 / n as f32),
                _ => base[j] + (other[j] - base[j]) * (0.5 + 0.5 * rnd11(seed ^ j as u64, i as u64)),
            }
        }).collect()
    };
    let ps: Vec<Vec<f32>> = (0..n).map(par).collect();
    let use_mixed = !by_setting && k.npar() > 1 && moves[1..].iter().all(|m| !*m) && k.mixed(&base, single).is_some() && src.bool();
    let mut u = if by_setting { k.fixed(&ps[0], single) } else if use_mixed { k.mixed(&base, single).unwrap() } else { k.input(single) };
    // A fixed filter is not fed other parameters while warming up.
    if by_setting {
        u.set_sample_rate(sr);
        if src.chance(1, 3) { let m = src.size(1, 90); render(&mut *u, &vec![(0..m).map(|i| rnd11(3, i as u64)).collect()], 0, &gen_steps(src, m)); u.reset(); }
    } else { warm(src, ctx, &mut u, k, sr); }
    let rate_change = if src.chance(1, 4) { src.size(1, n) } else { n };
    let sr2 = *src.pick(&[44100.0, 48000.0, 96000.0]);
    let ch = u.inputs();
    let input: Sig = (0..ch).map(|c| (0..n).map(|i| if c == 0 { xs[i] } else { ps[i][c - 1] }).collect()).collect();
    let mut model = Model::new(k);
    let mut want = Vec::with_capacity(n);
    let mut got: Vec<f32> = Vec::with_capacity(n);
    let mut i = 0;
    let mut cur = ps[0].clone();
    while i < n {
        if i == rate_change { sr = sr2; u.set_sample_rate(sr); }
        if by_setting && ps[i] != cur {
            cur = ps[i].clone();
            // Use the narrowest setting now and then.
            let only_center = k.npar() > 1 && cur[1..] == ps[i - 1][1..] && seed % 2 == 0;
            u.set(if only_center { Setting::center(cur[0]) } else { k.setting(&cur).unwrap() });
        }
        // How far until the next change that needs a call.
        let mut end = i + 1;
        while end < n && end != rate_change && end - i < 64 && (!by_setting || ps[end] == cur) { end += 1; }
        let len = 1 + src.below((end - i) as u64) as usize;
        let step = if len == 1 && src.bool() { Step::Tick(1) } else { Step::Block(len) };
        let y = render(&mut *u, &input, i, &[step]);
        got.extend(&y[0]);
        for t in i..i + len { want.push(model.step(xs[t] as f64, if by_setting { &cur } else { &ps[t] }, sr)); }
        i += len;
    }
    let worst = ps.iter().map(|p| if k.npar() == 3 && k != Morph { p[2] as f64 } else { 1.0 } * p.get(1).copied().unwrap_or(1.0).max(1.0) as f64).fold(1.0, f64::max);
    ctx.note(format!("{k:?} setting {by_setting} mixed {use_mixed} mode {mode} moves {moves:?} sr {sr} single {single} n {n}"));
    if mode > 0 && moves.iter().any(|m| *m) && n > 32 { ctx.nontrivial(); }
    ctx.label(if by_setting { "by setting" } else if use_mixed { "mixed" } else { "by input" });
    if rate_change < n { ctx.label("rate change"); }
    // Modulated state may grow beyond the bounds of any constant filter: skip what the reference itself cannot hold.
    if !want.iter().all(|y| y.is_finite() && y.abs() < 1.0e6) { ctx.label("reference diverges"); return Ok(()); }
    compare("varying", if by_setting { "settings" } else { "inputs" }, &got, &want, &xs, worst, single,
        &format!("{k:?} mode {mode} moves {moves:?} from {base:?} to {other:?} period {period}, mixed {use_mixed}, sr {sr}, rate change at {rate_change}, single {single}"))
}

#[derive(Clone)]
enum Sh { Tanh(f32), Softsign(f32), Clip(f32), Adaptive(f32, f32) }
fn shape_of(src: &mut Src) -> Sh {
    let hard = src.f32(0.1, 1.0);
    match src.below(4) { 0 => Sh::Tanh(hard), 1 => Sh::Softsign(hard), 2 => Sh::Clip(hard), _ => Sh::Adaptive(src.logf32(0.001, 0.2), hard) }
}

/// Fb (nonlinear feedback) or dirty (nonlinear state) biquads with any shape.
fn shaped_with<S: Shape + 'static>(src: &mut Src, ctx: &mut Ctx, shape: S, name: String) -> Res {
    let kind = src.below(4);
    let dirty = src.bool();
    let by_input = src.bool();
    // Nonlinear loops amplify rounding, so single precision is compared over a short stretch only.
    let single = !name.starts_with("Adaptive") && src.chance(1, 4);
    let sr = *src.pick(RATES);
    let n = src.size(2, 400);
    let xs = gen_x(src, n);
    let k = [Resonator, Lowpass, Highpass, Bell][kind as usize];
    let p = k.par(src, sr, true);
    let mut p2 = k.par(src, sr, true);
    // Often only some of the parameters change.
    for j in 0..p2.len() { if src.chance(1, 3) { p2[j] = p[j]; } }
    let change = if src.bool() { src.size(1, n) } else { n };
    let s = shape.clone();
    macro_rules! make { ($m:ident) => { match (kind, dirty, by_input) {
        (0, true, true) => Box::new($m::dresonator(s)) as Un, (0, true, false) => Box::new($m::dresonator_hz(s, p[0], p[1])),
        (0, false, true) => Box::new($m::fresonator(s)), (0, false, false) => Box::new($m::fresonator_hz(s, p[0], p[1])),
        (1, true, true) => Box::new($m::dlowpass(s)), (1, true, false) => Box::new($m::dlowpass_hz(s, p[0], p[1])),
        (1, false, true) => Box::new($m::flowpass(s)), (1, false, false) => Box::new($m::flowpass_hz(s, p[0], p[1])),
        (2, true, true) => Box::new($m::dhighpass(s)), (2, true, false) => Box::new($m::dhighpass_hz(s, p[0], p[1])),
        (2, false, true) => Box::new($m::fhighpass(s)), (2, false, false) => Box::new($m::fhighpass_hz(s, p[0], p[1])),
        (_, true, true) => Box::new($m::dbell(s)), (_, true, false) => Box::new($m::dbell_hz(s, p[0], p[1], p[2])),
        (_, false, true) => Box::new($m::fbell(s)), (_, false, false) => Box::new($m::fbell_hz(s, p[0], p[1], p[2])),
    } } }
    let mut u: Un = if single { make!(h32) } else { make!(h) };
    u.set_sample_rate(sr);
    if src.chance(1, 3) {
        let ch = u.inputs();
        let m = src.size(1, 90);
        render(&mut *u, &(0..ch).map(|c| (0..m).map(|i| if c == 0 { rnd11(5, i as u64) } else { p2[c - 1] }).collect()).collect::<Sig>(), 0, &gen_steps(src, m));
        u.reset();
        ctx.label("after reset");
    }
    if src.chance(1, 4) { u = u.clone(); }
    let (mut sh1, mut sh2) = (shape.clone(), shape);
    for s in [&mut sh1, &mut sh2] { s.set_sample_rate(sr); s.reset(); }
    let ch = u.inputs();
    let input: Sig = (0..ch).map(|c| (0..n).map(|i| if c == 0 { xs[i] } else if i < change { p[c - 1] } else { p2[c - 1] }).collect()).collect();
    let mut got = render(&mut *u, &input, 0, &gen_steps(src, change));
    if change < n {
        if !by_input { u.set(if kind == 3 { Setting::center_q_gain(p2[0], p2[1], p2[2]) } else { Setting::center_q(p2[0], p2[1]) }); }
        let rest: Sig = input.iter().map(|c| c[change..].to_vec()).collect();
        let tail = render(&mut *u, &rest, 0, &gen_steps(src, n - change));
        got[0].extend(&tail[0]);
        ctx.label("parameter change");
    }
    let (mut s1, mut s2) = (0.0f64, 0.0f64);
    let mut want = vec![];
    for i in 0..n {
        let c = k.digital(if i < change { &p } else { &p2 }, sr);
        let x = xs[i] as f64;
        let y = c[0] * x + s1;
        if dirty {
            let t1 = sh1.shape((s2 + c[1] * x - y * c[3]) as f32) as f64;
            s2 = sh2.shape((c[2] * x - y * c[4]) as f32) as f64;
            s1 = t1;
        } else {
            let fb = sh1.shape(y as f32) as f64;
            s1 = s2 + c[1] * x - fb * c[3];
            s2 = c[2] * x - fb * c[4];
        }
        want.push(y);
    }
    if n > 32 { ctx.nontrivial(); }
    ctx.label(if dirty { "dirty" } else { "feedback" });
    ctx.note(format!("{k:?} {p:?} dirty {dirty} inputs {by_input} shape {name} sr {sr} single {single}"));
    let pk = want.iter().fold(0.0f64, |a, b| a.max(b.abs())) + peak(&vec![xs.clone()]);
    let tol = if single { 0.05 } else { 2.0e-4 } * pk;
    for i in 0..if single { n.min(30) } else { n } {
        ensure!((got[0][i] as f64 - want[i]).abs() <= tol, "shaped", "sample {i} is {} but the reference is {} ({k:?} {p:?} -> {p2:?} at {change}, dirty {dirty}, inputs {by_input}, shape {name}, sr {sr}, single {single})", got[0][i], want[i]);
    }
    Ok(())
}
fn shaped(src: &mut Src, ctx: &mut Ctx) -> Res {
    match shape_of(src) {
        Sh::Tanh(x) => shaped_with(src, ctx, Tanh(x), format!("Tanh({x})")),
        Sh::Softsign(x) => shaped_with(src, ctx, Softsign(x), format!("Softsign({x})")),
        Sh::Clip(x) => shaped_with(src, ctx, Clip(x), format!("Clip({x})")),
        Sh::Adaptive(t, x) => shaped_with(src, ctx, Adaptive::new(t, Tanh(x)), format!("Adaptive({t}, Tanh({x}))")),
    }
}

/// Setters of the fixed filters, in any order.
fn setters(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let kind = src.below(9) as usize;
    let k = [Lowpass, Highpass, Bandpass, Notch, Peak, Allpass, Bell, Lowshelf, Highshelf][kind];
    let mut p = k.par(src, sr, false);
    while p.len() < 3 { p.push(1.0); }
    let n = src.size(10, 300);
    let xs = gen_x(src, n);
    let ops: Vec<(u64, Vec<f32>)> = (0..src.size(1, 5)).map(|_| {
        let mut np = k.par(src, sr, false);
        while np.len() < 3 { np.push(1.0); }
        (src.below(8), np)
    }).collect();
    macro_rules! go { ($f:expr) => {{
        let mut f = $f;
        for (op, np) in &ops {
            match op {
                0 => { f.set_center(np[0] as f64); p[0] = np[0]; }
                1 => { f.set_cutoff(np[0] as f64); p[0] = np[0]; }
                2 => { f.set_q(np[1] as f64); p[1] = np[1]; }
                3 => { f.set_gain(np[2] as f64); p[2] = np[2]; }
                4 => { f.set_center_q(np[0] as f64, np[1] as f64); p[0] = np[0]; p[1] = np[1]; }
                5 => { f.set_cutoff_q(np[0] as f64, np[1] as f64); p[0] = np[0]; p[1] = np[1]; }
                6 => { f.set_center_q_gain(np[0] as f64, np[1] as f64, np[2] as f64); p = np.clone(); }
                _ => { AudioNode::set_sample_rate(&mut f.0, sr); }
            }
        }
        AudioNode::set_sample_rate(&mut f.0, 44100.0);
        // The last word is a setter, not a rate change, when the rate is the default.
        ensure!(f.cutoff() as f32 == p[0] && f.q() as f32 == p[1] && (kind < 6 || f.gain() as f32 == p[2]), "setters", "reported parameters {} {} {} instead of {p:?}", f.cutoff(), f.q(), f.gain());
        Box::new(f) as Un
    }} }
    let (b, c, d) = (p[0], p[1], p[2]);
    let last_setter = src.bool();
    let mut u: Un = match kind {
        0 => go!(h::lowpass_hz(b, c)), 1 => go!(h::highpass_hz(b, c)), 2 => go!(h::bandpass_hz(b, c)),
        3 => go!(h::notch_hz(b, c)), 4 => go!(h::peak_hz(b, c)), 5 => go!(h::allpass_hz(b, c)),
        6 => go!(h::bell_hz(b, c, d)), 7 => go!(h::lowshelf_hz(b, c, d)), _ => go!(h::highshelf_hz(b, c, d)),
    };
    let _ = last_setter;
    u.set_sample_rate(sr);
    let mut model = Model::new(k);
    let want: Vec<f64> = xs.iter().map(|x| model.step(*x as f64, &p, sr)).collect();
    let got = render(&mut *u, &vec![xs.clone()], 0, &gen_steps(src, n));
    ctx.nontrivial();
    ctx.note(format!("{k:?} {ops:?}"));
    compare("setters", "after setters", &got[0], &want, &xs, (p[1].max(1.0) * p[2].max(1.0)) as f64, false, &format!("{k:?} {p:?} sr {sr} ops {ops:?}"))
}

/// Setters acting on a running filter: effective at once, without any other call.
fn live_setters(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let kind = src.below(9) as usize;
    let k = [Lowpass, Highpass, Bandpass, Notch, Peak, Allpass, Bell, Lowshelf, Highshelf][kind];
    let mut p = k.par(src, sr, false);
    while p.len() < 3 { p.push(1.0); }
    let seed = src.seed();
    let script: Vec<(u64, Vec<f32>, usize)> = (0..src.size(1, 6)).map(|_| {
        let mut np = k.par(src, sr, false);
        while np.len() < 3 { np.push(1.0); }
        (src.below(7), np, src.size(1, 60))
    }).collect();
    let (b, c, d) = (p[0], p[1], p[2]);
    macro_rules! go { ($f:expr) => {{
        let mut f: An<_> = $f;
        AudioNode::set_sample_rate(&mut f.0, sr);
        let mut model = Model::new(k);
        let mut t = 0u64;
        for (op, np, len) in &script {
            match op {
                0 => { f.set_center(np[0] as f64); p[0] = np[0]; }
                1 => { f.set_cutoff(np[0] as f64); p[0] = np[0]; }
                2 => { f.set_q(np[1] as f64); p[1] = np[1]; }
                3 => { f.set_gain(np[2] as f64); p[2] = np[2]; }
                4 => { f.set_center_q(np[0] as f64, np[1] as f64); p[0] = np[0]; p[1] = np[1]; }
                5 => { f.set_cutoff_q(np[0] as f64, np[1] as f64); p[0] = np[0]; p[1] = np[1]; }
                _ => { f.set_center_q_gain(np[0] as f64, np[1] as f64, np[2] as f64); p = np.clone(); }
            }
            for _ in 0..*len {
                let x = rnd11(seed, t);
                t += 1;
                let want = model.step(x as f64, &p, sr);
                let got = f.0.tick(&Frame::from([x]))[0] as f64;
                let tol = 1.0e-5 * (want.abs() + 2000.0f64.min(p[1].max(1.0) as f64 * p[2].max(1.0) as f64 * 60.0));
                ensure!((got - want).abs() <= tol || want.abs() > 1.0e6, "live setters", "{k:?} sample {t}: {got} but the reference is {want} after {op} {np:?} (script {script:?}, sr {sr})");
            }
        }
    }} }
    match kind {
        0 => go!(h::lowpass_hz(b, c)), 1 => go!(h::highpass_hz(b, c)), 2 => go!(h::bandpass_hz(b, c)),
        3 => go!(h::notch_hz(b, c)), 4 => go!(h::peak_hz(b, c)), 5 => go!(h::allpass_hz(b, c)),
        6 => go!(h::bell_hz(b, c, d)), 7 => go!(h::lowshelf_hz(b, c, d)), _ => go!(h::highshelf_hz(b, c, d)),
    }
    ctx.nontrivial();
    ctx.note(format!("{k:?} {script:?}"));
    Ok(())
}

/// Subsampled parameter inputs: read every `period` samples, starting from the first sample after a reset.
fn subsampled(src: &mut Src, ctx: &mut Ctx) -> Res {
    let svf: Vec<K> = ALL.iter().copied().filter(|k| k.svf()).collect();
    let k = *src.pick(&svf);
    let sr = *src.pick(RATES);
    let period = src.size(1, 40);
    let n = src.size(1, 300);
    let xs = gen_x(src, n);
    let a = k.par(src, sr, false);
    let b = k.par(src, sr, false);
    let seed = src.seed();
    let constant = src.bool();
    let ps: Vec<Vec<f32>> = (0..n).map(|i| a.iter().zip(&b).enumerate().map(|(j, (a, b))| if constant { *a } else { a + (b - a) * (0.5 + 0.5 * rnd11(seed + j as u64, i as u64)) }).collect()).collect();
    let mut u = k.input(false);
    u.set(Setting::subsample(period as u32));
    warm(src, ctx, &mut u, k, sr);
    let ch = u.inputs();
    let input: Sig = (0..ch).map(|c| (0..n).map(|i| if c == 0 { xs[i] } else { ps[i][c - 1] }).collect()).collect();
    let steps = gen_steps(src, n);
    let got = render(&mut *u, &input, 0, &steps);
    let mut m = Model::new(k);
    let want: Vec<f64> = (0..n).map(|i| m.step(xs[i] as f64, &ps[i - i % period], sr)).collect();
    if period > 1 && n > period { ctx.nontrivial(); }
    ctx.note(format!("{k:?} period {period} n {n} constant {constant}"));
    if !want.iter().all(|y| y.abs() < 1.0e6) { return Ok(()); }
    let g = ps.iter().map(|p| p.get(2).copied().unwrap_or(1.0).max(1.0) * p[1].max(1.0)).fold(1.0, f32::max) as f64;
    compare("subsampled", "subsampled", &got[0], &want, &xs, g, false, &format!("{k:?} period {period} {a:?} {b:?} constant {constant} sr {sr} steps {}", describe_steps(&steps)))
}

/// Arbitrary biquads, the biquad bank and FIR filters.
fn arbitrary(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 400);
    let sr = *src.pick(RATES);
    let coef = |src: &mut Src| -> [f32; 5] {
        // Stable: poles r e^{+-iw} or two real poles.
        let (a1, a2) = if src.bool() { let r = src.f32(0.0, 0.98); let w = src.f32(0.0, 3.14); (-2.0 * r * w.cos(), r * r) } else { let x = src.f32(-0.98, 0.98); let y = src.f32(-0.98, 0.98); (-(x + y), x * y) };
        [a1, a2, src.f32(-1.0, 1.0), src.f32(-1.0, 1.0), src.f32(-1.0, 1.0)]
    };
    let iir = |c: [f32; 5], x: &[f32]| -> Vec<f64> {
        let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
        x.iter().map(|x| { let x = *x as f64; let y = c[2] as f64 * x + c[3] as f64 * x1 + c[4] as f64 * x2 - c[0] as f64 * y1 - c[1] as f64 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; y }).collect()
    };
    match src.below(4) {
        0 => {
            let single = src.bool();
            let c = coef(src);
            let by_set = src.bool();
            let c0 = if by_set { coef(src) } else { c };
            let mut u: Un = if single { Box::new(h32::biquad(c0[0], c0[1], c0[2], c0[3], c0[4])) } else { Box::new(h::biquad(c0[0], c0[1], c0[2], c0[3], c0[4])) };
            if by_set { u.set(Setting::biquad(c[0], c[1], c[2], c[3], c[4])); }
            warm(src, ctx, &mut u, Pink, sr);
            let xs = gen_x(src, n);
            let got = render(&mut *u, &vec![xs.clone()], 0, &gen_steps(src, n));
            ctx.label("biquad");
            if n > 8 { ctx.nontrivial(); }
            ctx.note(format!("biquad {c:?} single {single}"));
            compare("biquad", "biquad", &got[0], &iir(c, &xs), &xs, 1.0, single, &format!("{c:?} by setting {by_set}"))
        }
        1 => {
            let single = src.bool();
            let mut u: Un = if single { Box::new(h32::biquad_bank()) } else { Box::new(h::biquad_bank()) };
            let ch = u.outputs();
            let order: Vec<usize> = (0..src.size(0, 12)).map(|_| src.size(0, ch)).collect();
            let mut cs = vec![[0.0f32; 5]; ch];
            for i in order {
                let c = coef(src);
                // Out of range indices are ignored.
                if i < ch { cs[i] = c; }
                u.set(Setting::biquad(c[0], c[1], c[2], c[3], c[4]).index(i));
            }
            u.set_sample_rate(sr);
            let input: Sig = (0..ch).map(|_| gen_x(src, n)).collect();
            let got = render(&mut *u, &input, 0, &gen_steps(src, n));
            ctx.label("bank");
            if n > 8 && cs.iter().any(|c| c[2] != 0.0) { ctx.nontrivial(); }
            ctx.note(format!("bank {cs:?} single {single}"));
            for c in 0..ch { compare("bank", "bank", &got[c], &iir(cs[c], &input[c]), &input[c], 1.0, single, &format!("channel {c} of {cs:?}"))?; }
            Ok(())
        }
        2 => {
            let w: Vec<f32> = (0..src.size(1, 6)).map(|_| src.f32(-1.0, 1.0)).collect();
            let mut u: Un = match w.len() {
                1 => Box::new(h::fir(w[0])), 2 => Box::new(h::fir((w[0], w[1]))), 3 => Box::new(h::fir((w[0], w[1], w[2]))),
                4 => Box::new(h::fir((w[0], w[1], w[2], w[3]))), 5 => Box::new(h::fir((w[0], w[1], w[2], w[3], w[4]))),
                _ => Box::new(h::fir((w[0], w[1], w[2], w[3], w[4], w[5]))),
            };
            warm(src, ctx, &mut u, Pink, sr);
            let xs = gen_x(src, n);
            let m = w.len();
            let want: Vec<f64> = (0..n).map(|i| (0..m).filter(|j| i >= *j).map(|j| w[m - 1 - j] as f64 * xs[i - j] as f64).sum()).collect();
            let got = render(&mut *u, &vec![xs.clone()], 0, &gen_steps(src, n));
            ctx.label("fir");
            if n > 8 { ctx.nontrivial(); }
            ctx.note(format!("fir {w:?}"));
            compare("fir", "fir", &got[0], &want, &xs, 1.0, false, &format!("{w:?}"))
        }
        _ => {
            let g = src.f32(0.0, 2.0);
            let mut u: Un = Box::new(h::fir3(g));
            u.set_sample_rate(sr);
            let n = n + 8;
            let xs: Vec<f32> = vec![1.0; n];
            let ny: Vec<f32> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let a = render(&mut *u, &vec![xs], 0, &gen_steps(src, n));
            u.reset();
            let b = render(&mut *u, &vec![ny.clone()], 0, &gen_steps(src, n));
            u.reset();
            let imp = render(&mut *u, &vec![(0..8).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect()], 0, &[Step::Block(8)]);
            ctx.label("fir3");
            ctx.nontrivial();
            ctx.note(format!("fir3({g})"));
            ensure!(close(a[0][n - 1] as f64, 1.0, 1.0e-5, 0.0), "fir3", "gain {} at DC for Nyquist gain {g}", a[0][n - 1]);
            ensure!(close((b[0][n - 1] / ny[n - 1]).abs() as f64, g as f64, 1.0e-5, 0.0), "fir3", "gain {} at Nyquist instead of {g}", b[0][n - 1]);
            ensure!(imp[0][0] == imp[0][2] && imp[0][3..].iter().all(|x| *x == 0.0), "fir3", "not a symmetric 3-point response: {:?}", imp[0]);
            Ok(())
        }
    }
}

/// Stability: any bounded input, parameters anywhere in range and moving, for a long time; silence decays.
fn stable(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = *src.pick(ALL);
    let single = src.chance(1, 3);
    let sr = *src.pick(RATES);
    let by_input = k.has_inputs() && src.bool();
    let mild = single;
    let a = k.par(src, sr, mild);
    let b = k.par(src, sr, mild);
    let seed = src.seed();
    let n = src.size(500, 4000);
    // Direct form biquads (butterpass, resonator) are not built for audio rate modulation.
    let modulate = by_input && !matches!(k, Butter | Resonator) && src.bool();
    let period = *src.pick(&[1usize, 3, 17, 64, 400]);
    let mut u = if by_input { k.input(single) } else { k.fixed(&a, single) };
    u.set_sample_rate(sr);
    // Q moves slowly enough in every filter; only frequency and gain jump at audio rate.
    let param = |j: usize, i: usize| -> f32 { if modulate && j != 1 { a[j] + (b[j] - a[j]) * (0.5 + 0.5 * rnd11(seed ^ (j as u64 + 7), (i / period) as u64)) } else { a[j] } };
    let amp = src.logf32(0.001, 100.0);
    let full_square = src.bool();
    let x = |i: usize| -> f32 { if i >= n { 0.0 } else if full_square { if rnd11(seed, (i / 5) as u64) > 0.0 { amp } else { -amp } } else { amp * rnd11(seed, i as u64) } };
    let q = if k.npar() > 1 && k.linear() { a[1].max(1.0) as f64 } else { 1.0 };
    let tail = 2000;
    let ch = u.inputs();
    let input: Sig = (0..ch).map(|c| (0..n + tail).map(|i| if c == 0 { x(i) } else { param(c - 1, i) }).collect()).collect();
    let got = render(&mut *u, &input, 0, &gen_steps(src, n + tail));
    ctx.nontrivial();
    ctx.label(if modulate { "modulated" } else { "constant" });
    ctx.note(format!("{k:?} {a:?} {b:?} modulate {modulate} period {period} sr {sr} single {single} amp {amp}"));
    for (i, y) in got[0].iter().enumerate() {
        ensure!(y.is_finite(), "stable", "{k:?} produced {y} at sample {i} (from {a:?} to {b:?}, modulated {modulate} every {period}, amplitude {amp}, sr {sr}, single {single})");
    }
    if !modulate {
        // A bounded filter: the l1 norm of a two-pole resonance is below a few times Q, of a shelf or bell its gain.
        let gain = if k.npar() == 3 && k != Morph { a[2].max(1.0 / a[2]) as f64 } else { 1.0 };
        let bound = match k { Moog => 1.0001, Lowrez | Bandrez => continue_bound(amp as f64, &a, sr), _ => 20.0 * amp as f64 * q * gain.max(1.0) * 2.0 };
        let pk = peak(&got);
        ensure!(pk <= bound, "stable", "{k:?} reached {pk} for amplitude {amp} (bound {bound}, {a:?}, sr {sr}, single {single})");
    }
    Ok(())
}
/// The resonant filters saturate their feedback, so the state is bounded by the input plus the feedback limit.
fn continue_bound(amp: f64, a: &[f32], sr: f64) -> f64 {
    let f = 2.0 * (core::f64::consts::PI * a[0] as f64 / sr).sin();
    let fb = a[1] as f64 * (1.0 + 1.0 / (1.0 - f));
    4.0 * (amp + fb) + 1.0
}

fn main() {
    main_check(Check {
        id: "C28",
        rule: "a filter driven with at least 33 samples of nonzero input (varying: with parameters that move; setters, stable: always; arbitrary: at least 9 samples; subsampled: period above 1)",
        assumptions: &[
            "prototypes: second order analog prototypes by the bilinear transform for state variable, biquad and Butterworth filters; pole/zero positions for the resonator and one-pole filters; Kellett's constants for pinkpass; the published recurrences for moog and lowrez",
            "single precision filters are compared at cutoffs of at least 1 % of the sample rate and Q up to 10, within 2 % of the peak",
            "lowrez and bandrez are used below 0.13 of the sample rate, where their formula is meant to work; moog below 0.4",
            "stability under audio rate modulation is asked of all filters except the direct form biquads (butterpass, resonator, nonlinear biquads); Q (input 2) is held constant there",
        ],
        subs: vec![
            Sub { name: "transfer", f: transfer, quick: 120000, thorough: 2400000 },
            Sub { name: "varying", f: varying, quick: 100000, thorough: 2000000 },
            Sub { name: "shaped", f: shaped, quick: 60000, thorough: 1200000 },
            Sub { name: "setters", f: setters, quick: 40000, thorough: 800000 },
            Sub { name: "live_setters", f: live_setters, quick: 40000, thorough: 800000 },
            Sub { name: "subsampled", f: subsampled, quick: 40000, thorough: 800000 },
            Sub { name: "arbitrary", f: arbitrary, quick: 60000, thorough: 1200000 },
            Sub { name: "stable", f: stable, quick: 40000, thorough: 800000 },
        ],
    });
}
