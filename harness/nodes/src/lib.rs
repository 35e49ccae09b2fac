//! Catalogue of fundsp units with generated parameters.
use vfcore::Src;
pub use vfcore::kind::{Kind, LeafSpec};
use fundsp::hacker as h;
use fundsp::hacker32 as g;
use fundsp::prelude as p;
use fundsp::hacker::{An, AudioNode, AudioUnit, BiquadCoefs, Frame, Meter, Shape, Shared, Wave, U0, U1, U2, U3, U4, U5, U8, U32};
use fundsp::GenericSequence;
use std::sync::Arc;

pub struct Leaf {
    pub ins: Vec<Kind>,
    pub outs: usize,
    pub unit: Box<dyn AudioUnit>,
    /// Absolute tolerance between rendering modes, per unit of signal scale.
    pub tol: f64,
    /// Linear, time-invariant and analyzable from audio inputs to outputs.
    pub lti: bool,
    /// Computes internally with 32 bits.
    pub narrow: bool,
    /// Output is a phase-like quantity where values 0 and 1 coincide.
    pub phase: bool,
}

/// Parameter reader: six numbers in 0...1.
pub struct P<'a>(pub &'a [f64]);
impl P<'_> {
    pub fn u(&self, i: usize) -> f64 { self.0[i] }
    pub fn lin(&self, i: usize, lo: f64, hi: f64) -> f32 { (lo + (hi - lo) * self.0[i]) as f32 }
    pub fn log(&self, i: usize, lo: f64, hi: f64) -> f32 { (lo.ln() + (hi.ln() - lo.ln()) * self.0[i]).exp() as f32 }
    pub fn idx(&self, i: usize, n: usize) -> usize { ((self.0[i] * n as f64) as usize).min(n - 1) }
    pub fn flag(&self, i: usize) -> bool { self.0[i] >= 0.5 }
    pub fn seed(&self, i: usize) -> u64 { (self.0[i] * 16777216.0) as u64 }
}

fn leaf<X: AudioNode + 'static>(ins: Vec<Kind>, x: An<X>) -> Leaf {
    assert_eq!(ins.len(), x.inputs());
    let outs = x.outputs();
    Leaf { ins, outs, unit: Box::new(x), tol: 2.0e-5, lti: false, narrow: false, phase: false }
}
impl Leaf {
    fn lti(mut self) -> Leaf { self.lti = true; self }
    fn narrow(self) -> Leaf { self.narrow_if(true) }
    fn narrow_if(mut self, b: bool) -> Leaf { self.narrow = b; self }
    fn phase(mut self) -> Leaf { self.phase = true; self }
    fn tol(mut self, t: f64) -> Leaf { self.tol = t; self }
}
pub fn boxed(ins: Vec<Kind>, unit: Box<dyn AudioUnit>) -> Leaf {
    let outs = unit.outputs();
    assert_eq!(ins.len(), unit.inputs());
    Leaf { ins, outs, unit, tol: 2.0e-5, lti: false, narrow: false, phase: false }
}

use Kind::*;
const A: Kind = Audio;
const F: Kind = Log(20.0, 10000.0);
const FC: Kind = Const(20.0, 10000.0);
const Q: Kind = Log(0.3, 8.0);
const GAIN: Kind = Log(0.25, 4.0);

fn hz(q: &P, i: usize) -> f32 { q.log(i, 20.0, 10000.0) }
fn qq(q: &P, i: usize) -> f32 { q.log(i, 0.3, 8.0) }
fn gg(q: &P, i: usize) -> f32 { q.log(i, 0.25, 4.0) }

pub fn test_wave(channels: usize, length: usize, sr: f64, seed: u64) -> Wave {
    let mut w = Wave::zero(channels, sr, length as f64 / sr);
    w.resize(length);
    for c in 0..channels {
        for i in 0..length {
            let r = vfcore::mix(seed ^ ((c as u64) << 40) ^ i as u64);
            w.set(c, i, ((r >> 40) as f32 / (1u64 << 23) as f32) - 1.0);
        }
    }
    w
}

/// A shape chosen by parameters; used for nonlinear biquads.
#[derive(Clone)]
pub enum AnyShape { Tanh(h::Tanh), Clip(h::Clip), Softsign(h::Softsign), Atan(h::Atan) }
impl Shape for AnyShape {
    fn shape(&mut self, x: f32) -> f32 {
        match self { AnyShape::Tanh(s) => s.shape(x), AnyShape::Clip(s) => s.shape(x), AnyShape::Softsign(s) => s.shape(x), AnyShape::Atan(s) => s.shape(x) }
    }
}
pub fn any_shape(q: &P, i: usize, j: usize) -> AnyShape {
    let d = q.log(j, 0.2, 4.0);
    match q.idx(i, 4) { 0 => AnyShape::Tanh(h::Tanh(d)), 1 => AnyShape::Clip(h::Clip(d)), 2 => AnyShape::Softsign(h::Softsign(d)), _ => AnyShape::Atan(h::Atan(d)) }
}

type B = fn(&P) -> Leaf;

macro_rules! f64or32 {
    ($q:expr, $i:expr, $ins:expr, $a:expr, $b:expr) => { if $q.flag($i) { leaf($ins, $a) } else { leaf($ins, $b).narrow() } };
}

/// The catalogue. Index order is part of the case encoding.
pub fn catalogue() -> &'static [(&'static str, B)] {
    &[
        // --- basic ---
        ("pass", |_q| leaf(vec![A], h::pass()).lti()),
        ("constant", |q| match q.idx(0, 3) {
            0 => leaf(vec![], h::constant(q.lin(1, -1.0, 1.0))),
            1 => leaf(vec![], h::constant((q.lin(1, -1.0, 1.0), q.lin(2, -1.0, 1.0)))),
            _ => leaf(vec![], h::dc((q.lin(1, -1.0, 1.0), q.lin(2, -1.0, 1.0), q.lin(3, -1.0, 1.0)))),
        }),
        ("zero", |q| if q.flag(0) { leaf(vec![], h::zero()) } else { leaf(vec![], h::multizero::<U2>()) }),
        ("multipass", |q| if q.flag(0) { leaf(vec![A, A], h::multipass::<U2>()).lti() } else { leaf(vec![A, A, A], h::multipass::<U3>()).lti() }),
        ("sink", |q| if q.flag(0) { leaf(vec![A], h::sink()) } else { leaf(vec![A, A], h::multisink::<U2>()) }),
        ("reverse", |q| if q.flag(0) { leaf(vec![A, A], h::reverse::<U2>()).lti() } else { leaf(vec![A, A, A], h::reverse::<U3>()).lti() }),
        ("swap", |_q| leaf(vec![A, A], An(h::Mixer::<U2, U2>::new([[0.0f32, 1.0].into(), [1.0f32, 0.0].into()].into()))).lti()),
        ("add", |q| leaf(vec![A], h::add(q.lin(0, -2.0, 2.0)))),
        ("sub", |q| leaf(vec![A, A], h::sub((q.lin(0, -2.0, 2.0), q.lin(1, -2.0, 2.0))))),
        ("mul", |q| leaf(vec![A], h::mul(q.lin(0, -2.0, 2.0))).lti()),
        ("mul2", |q| leaf(vec![A, A], h::mul((q.lin(0, -2.0, 2.0), q.lin(1, -2.0, 2.0)))).lti()),
        ("split", |q| if q.flag(0) { leaf(vec![A], h::split::<U2>()).lti() } else { leaf(vec![A], h::split::<U3>()).lti() }),
        ("multisplit", |_q| leaf(vec![A, A], h::multisplit::<U2, U2>()).lti()),
        ("join", |q| if q.flag(0) { leaf(vec![A, A], h::join::<U2>()).lti() } else { leaf(vec![A, A, A], h::join::<U3>()).lti() }),
        ("multijoin", |_q| leaf(vec![A, A, A, A], h::multijoin::<U2, U2>()).lti()),
        ("tick", |_q| leaf(vec![A], h::tick()).lti()),
        ("multitick", |_q| leaf(vec![A, A], h::multitick::<U2>()).lti()),
        ("rotate", |q| leaf(vec![A, A], h::rotate(q.lin(0, -7.0, 7.0), q.lin(1, -1.5, 1.5))).lti()),
        ("impulse", |q| if q.flag(0) { leaf(vec![], h::impulse::<U1>()) } else { leaf(vec![], h::impulse::<U2>()) }),
        ("map", |q| { let c = q.lin(0, -1.0, 1.0); leaf(vec![A, A], h::map(move |i: &Frame<f32, U2>| (i[0] * i[1] + c, i[0] - i[1]))) }),
        ("meter", |q| { let m = match q.idx(0, 3) { 0 => Meter::Sample, 1 => Meter::Peak(q.log(1, 0.01, 1.0) as f64), _ => Meter::Rms(q.log(1, 0.01, 1.0) as f64) }; leaf(vec![A], h::meter(m)) }),
        ("monitor", |q| { let m = match q.idx(0, 3) { 0 => Meter::Sample, 1 => Meter::Peak(q.log(1, 0.01, 1.0) as f64), _ => Meter::Rms(q.log(1, 0.01, 1.0) as f64) }; leaf(vec![A], h::monitor(&Shared::new(0.0), m)).lti() }),
        ("var", |q| leaf(vec![], h::var(&Shared::new(q.lin(0, -1.0, 1.0))))),
        ("var_fn", |q| leaf(vec![], h::var_fn(&Shared::new(q.lin(0, -1.0, 1.0)), |x| (x, -x * 2.0)))),
        ("timer", |_q| leaf(vec![], h::timer(&Shared::new(0.0)))),
        // --- oscillators ---
        ("sine", |q| f64or32!(q, 0, vec![F], An(h::Sine::<f64>::new()), An(h::Sine::<f32>::new())).tol(if q.flag(0) { 3.0e-4 } else { 6.0e-3 })),
        ("sine_phase", |q| leaf(vec![F], h::sine().phase(q.lin(0, 0.0, 1.0))).tol(3.0e-4)),
        ("sine_hz", |q| f64or32!(q, 1, vec![], h::sine_hz(hz(q, 0)), g::sine_hz(hz(q, 0))).tol(if q.flag(1) { 3.0e-4 } else { 6.0e-3 })),
        ("ramp", |q| f64or32!(q, 0, vec![F], h::ramp(), g::ramp()).phase()),
        ("ramp_hz", |q| f64or32!(q, 1, vec![], h::ramp_hz(hz(q, 0)), g::ramp_hz(hz(q, 0))).phase()),
        ("rossler", |_q| leaf(vec![Const(20.0, 2000.0)], h::rossler())),
        ("lorenz", |_q| leaf(vec![Const(20.0, 2000.0)], h::lorenz())),
        ("dsf_saw", |_q| leaf(vec![F, Range(0.1, 0.95)], h::dsf_saw()).tol(1.0e-3)),
        ("dsf_saw_r", |q| leaf(vec![F], h::dsf_saw_r(q.lin(0, 0.1, 0.95))).tol(1.0e-3)),
        ("dsf_square", |_q| leaf(vec![F, Range(0.1, 0.95)], h::dsf_square()).tol(1.0e-3)),
        ("dsf_square_r", |q| leaf(vec![F], h::dsf_square_r(q.lin(0, 0.1, 0.95))).tol(1.0e-3)),
        ("pluck", |q| leaf(vec![A], h::pluck(q.log(0, 60.0, 2000.0), q.lin(1, 0.1, 0.99), q.lin(2, 0.0, 1.0)))),
        ("poly_saw", |q| f64or32!(q, 0, vec![F], h::poly_saw(), g::poly_saw())),
        ("poly_square", |q| f64or32!(q, 0, vec![F], h::poly_square(), g::poly_square())),
        ("poly_pulse", |q| f64or32!(q, 0, vec![F, Range(0.05, 0.95)], h::poly_pulse(), g::poly_pulse())),
        ("poly_saw_hz", |q| leaf(vec![], h::poly_saw_hz(hz(q, 0)))),
        ("poly_square_hz", |q| leaf(vec![], h::poly_square_hz(hz(q, 0)))),
        ("poly_pulse_hz", |q| leaf(vec![], h::poly_pulse_hz(hz(q, 0), q.lin(1, 0.05, 0.95)))),
        ("wavesynth", |q| match q.idx(0, 6) {
            0 => leaf(vec![FC], h::saw()), 1 => leaf(vec![FC], h::square()), 2 => leaf(vec![FC], h::triangle()),
            3 => leaf(vec![FC], h::organ()), 4 => leaf(vec![FC], h::soft_saw()), _ => leaf(vec![FC], h::hammond()),
        }.tol(8.0e-3)),
        ("wavesynth_hz", |q| match q.idx(0, 6) {
            0 => leaf(vec![], h::saw_hz(hz(q, 1))), 1 => leaf(vec![], h::square_hz(hz(q, 1))), 2 => leaf(vec![], h::triangle_hz(hz(q, 1))),
            3 => leaf(vec![], h::organ_hz(hz(q, 1))), 4 => leaf(vec![], h::soft_saw_hz(hz(q, 1))), _ => leaf(vec![], h::hammond_hz(hz(q, 1))),
        }.tol(8.0e-3)),
        ("wavesynth_phase", |q| leaf(vec![FC], An(h::WaveSynth::<U1>::new(h::saw_table())).phase(q.lin(0, 0.0, 1.0))).tol(8.0e-3)),
        ("phase_synth", |_q| leaf(vec![Range(0.0, 1.0)], An(h::PhaseSynth::new(h::triangle_table()))).tol(1.0e-4)),
        ("pulse", |_q| leaf(vec![FC, Range(0.05, 0.95)], h::pulse()).tol(4.0e-2)),
        ("atomic_synth", |q| {
            let n = 16usize << q.idx(0, 3);
            let w: Vec<f32> = (0..n).map(|i| ((i as f32 / n as f32) * 6.2831855).sin()).collect();
            let mut s = h::AtomicSynth::<f32>::new(Arc::new(h::AtomicTable::new(&w)));
            s.set_interpolation(match q.idx(1, 3) { 0 => h::Interpolation::Nearest, 1 => h::Interpolation::Linear, _ => h::Interpolation::Cubic });
            leaf(vec![F], An(s)).tol(1.0e-3)
        }),
        // --- noise ---
        ("mls", |q| leaf(vec![], h::mls_bits(1 + q.idx(0, 31) as u64))),
        ("noise", |q| if q.flag(0) { leaf(vec![], h::noise()) } else { leaf(vec![], h::white().seed(q.seed(1))) }),
        ("hold", |q| leaf(vec![A, F], h::hold(q.lin(0, 0.0, 1.0)))),
        ("hold_hz", |q| leaf(vec![A], h::hold_hz(hz(q, 1), q.lin(0, 0.0, 1.0)))),
        ("pink", |q| f64or32!(q, 0, vec![], h::pink(), g::pink())),
        ("brown", |q| f64or32!(q, 0, vec![], h::brown(), g::brown())),
        // --- simple filters ---
        ("pinkpass", |q| f64or32!(q, 0, vec![A], h::pinkpass(), g::pinkpass()).lti()),
        ("butterpass", |q| f64or32!(q, 0, vec![A, F], h::butterpass(), g::butterpass())),
        ("butterpass_hz", |q| f64or32!(q, 1, vec![A], h::butterpass_hz(hz(q, 0)), g::butterpass_hz(hz(q, 0))).lti()),
        ("lowpole", |q| f64or32!(q, 0, vec![A, F], h::lowpole(), g::lowpole())),
        ("lowpole_hz", |q| f64or32!(q, 1, vec![A], h::lowpole_hz(hz(q, 0)), g::lowpole_hz(hz(q, 0))).lti()),
        ("allpole", |q| f64or32!(q, 0, vec![A, Range(0.2, 3.0)], h::allpole(), g::allpole())),
        ("allpole_delay", |q| f64or32!(q, 1, vec![A], h::allpole_delay(q.lin(0, 0.2, 3.0)), g::allpole_delay(q.lin(0, 0.2, 3.0))).lti()),
        ("highpole", |q| f64or32!(q, 0, vec![A, F], h::highpole(), g::highpole())),
        ("highpole_hz", |q| f64or32!(q, 1, vec![A], h::highpole_hz(hz(q, 0)), g::highpole_hz(hz(q, 0))).lti()),
        ("dcblock", |q| match q.idx(0, 3) { 0 => leaf(vec![A], h::dcblock()), 1 => leaf(vec![A], g::dcblock()).narrow(), _ => leaf(vec![A], h::dcblock_hz(q.log(1, 5.0, 200.0))) }.lti()),
        ("resonator", |q| f64or32!(q, 0, vec![A, F, Log(20.0, 2000.0)], h::resonator(), g::resonator())),
        ("resonator_hz", |q| f64or32!(q, 2, vec![A], h::resonator_hz(hz(q, 0), q.log(1, 20.0, 2000.0)), g::resonator_hz(hz(q, 0), q.log(1, 20.0, 2000.0))).lti()),
        ("biquad", |q| {
            let (r, th) = (q.lin(0, 0.0, 0.95), q.lin(1, 0.0, 3.14));
            let (a1, a2) = (-2.0 * r * th.cos(), r * r);
            let b = (q.lin(2, -1.0, 1.0), q.lin(3, -1.0, 1.0), q.lin(4, -1.0, 1.0));
            f64or32!(q, 5, vec![A], h::biquad(a1, a2, b.0, b.1, b.2), g::biquad(a1, a2, b.0, b.1, b.2)).lti()
        }),
        ("fir", |q| if q.flag(0) {
            leaf(vec![A], h::fir((q.lin(1, -1.0, 1.0), q.lin(2, -1.0, 1.0), q.lin(3, -1.0, 1.0)))).lti()
        } else {
            leaf(vec![A], h::fir((q.lin(1, -1.0, 1.0), q.lin(2, -1.0, 1.0), q.lin(3, -1.0, 1.0), q.lin(4, -1.0, 1.0), q.lin(5, -1.0, 1.0)))).lti()
        }),
        ("fir3", |q| leaf(vec![A], h::fir3(q.lin(0, 0.0, 1.0))).lti()),
        ("moog", |q| f64or32!(q, 0, vec![A, Log(20.0, 8000.0), Range(0.0, 0.8)], h::moog(), g::moog())),
        ("moog_q", |q| leaf(vec![A, Log(20.0, 8000.0)], h::moog_q(q.lin(0, 0.0, 0.8)))),
        ("moog_hz", |q| f64or32!(q, 2, vec![A], h::moog_hz(q.log(0, 20.0, 8000.0), q.lin(1, 0.0, 0.8)), g::moog_hz(q.log(0, 20.0, 8000.0), q.lin(1, 0.0, 0.8)))),
        // --- state variable filters ---
        ("svf", |q| {
            let v3 = vec![A, F, Q];
            let v4 = vec![A, F, Q, GAIN];
            if q.flag(1) { match q.idx(0, 9) {
                0 => leaf(v3, h::lowpass()), 1 => leaf(v3, h::highpass()), 2 => leaf(v3, h::bandpass()), 3 => leaf(v3, h::notch()),
                4 => leaf(v3, h::peak()), 5 => leaf(v3, h::allpass()), 6 => leaf(v4, h::bell()), 7 => leaf(v4, h::lowshelf()), _ => leaf(v4, h::highshelf()),
            } } else { match q.idx(0, 9) {
                0 => leaf(v3, g::lowpass()), 1 => leaf(v3, g::highpass()), 2 => leaf(v3, g::bandpass()), 3 => leaf(v3, g::notch()),
                4 => leaf(v3, g::peak()), 5 => leaf(v3, g::allpass()), 6 => leaf(v4, g::bell()), 7 => leaf(v4, g::lowshelf()), _ => leaf(v4, g::highshelf()),
            } }
        }),
        ("svf_hz", |q| {
            let (f, k, ga) = (hz(q, 2), qq(q, 3), gg(q, 4));
            let v = vec![A];
            if q.flag(1) { match q.idx(0, 9) {
                0 => leaf(v, h::lowpass_hz(f, k)), 1 => leaf(v, h::highpass_hz(f, k)), 2 => leaf(v, h::bandpass_hz(f, k)), 3 => leaf(v, h::notch_hz(f, k)),
                4 => leaf(v, h::peak_hz(f, k)), 5 => leaf(v, h::allpass_hz(f, k)), 6 => leaf(v, h::bell_hz(f, k, ga)), 7 => leaf(v, h::lowshelf_hz(f, k, ga)), _ => leaf(v, h::highshelf_hz(f, k, ga)),
            } } else { match q.idx(0, 9) {
                0 => leaf(v, g::lowpass_hz(f, k)), 1 => leaf(v, g::highpass_hz(f, k)), 2 => leaf(v, g::bandpass_hz(f, k)), 3 => leaf(v, g::notch_hz(f, k)),
                4 => leaf(v, g::peak_hz(f, k)), 5 => leaf(v, g::allpass_hz(f, k)), 6 => leaf(v, g::bell_hz(f, k, ga)), 7 => leaf(v, g::lowshelf_hz(f, k, ga)), _ => leaf(v, g::highshelf_hz(f, k, ga)),
            } }.narrow_if(!q.flag(1)).lti()
        }),
        ("svf_q", |q| {
            let (k, ga) = (qq(q, 3), gg(q, 4));
            let v = vec![A, F];
            match q.idx(0, 9) {
                0 => leaf(v, h::lowpass_q(k)), 1 => leaf(v, h::highpass_q(k)), 2 => leaf(v, h::bandpass_q(k)), 3 => leaf(v, h::notch_q(k)),
                4 => leaf(v, h::peak_q(k)), 5 => leaf(v, h::allpass_q(k)), 6 => leaf(v, h::bell_q(k, ga)), 7 => leaf(v, h::lowshelf_q(k, ga)), _ => leaf(v, h::highshelf_q(k, ga)),
            }
        }),
        ("morph", |q| f64or32!(q, 0, vec![A, F, Q, Range(-1.0, 1.0)], h::morph(), g::morph())),
        ("morph_hz", |q| leaf(vec![A], h::morph_hz(hz(q, 0), qq(q, 1), q.lin(2, -1.0, 1.0))).lti()),
        ("rez", |q| if q.flag(0) { leaf(vec![A, Log(20.0, 8000.0), Range(0.0, 0.9)], h::lowrez()) } else { leaf(vec![A, Log(20.0, 8000.0), Range(0.0, 0.9)], h::bandrez()) }),
        ("rez_hz", |q| if q.flag(0) { leaf(vec![A], h::lowrez_hz(q.log(1, 20.0, 8000.0), q.lin(2, 0.0, 0.9))) } else { leaf(vec![A], g::bandrez_hz(q.log(1, 20.0, 8000.0), q.lin(2, 0.0, 0.9))) }),
        ("rez_q", |q| if q.flag(0) { leaf(vec![A, Log(20.0, 8000.0)], h::lowrez_q(q.lin(2, 0.0, 0.9))) } else { leaf(vec![A, Log(20.0, 8000.0)], h::bandrez_q(q.lin(2, 0.0, 0.9))) }),
        // --- nonlinear biquads ---
        ("dirty", |q| {
            let s = any_shape(q, 2, 3);
            match q.idx(0, 4) {
                0 => leaf(vec![A, F, Q, GAIN], h::dbell(s)), 1 => leaf(vec![A, F, Q], h::dhighpass(s)),
                2 => leaf(vec![A, F, Q], h::dlowpass(s)), _ => leaf(vec![A, F, Q], h::dresonator(s)),
            }
        }),
        ("dirty_hz", |q| {
            let s = any_shape(q, 2, 3);
            let v = vec![A];
            match q.idx(0, 4) {
                0 => leaf(v, h::dbell_hz(s, hz(q, 1), qq(q, 4), gg(q, 5))), 1 => leaf(v, g::dhighpass_hz(s, hz(q, 1), qq(q, 4))),
                2 => leaf(v, h::dlowpass_hz(s, hz(q, 1), qq(q, 4))), _ => leaf(v, h::dresonator_hz(s, hz(q, 1), qq(q, 4))),
            }
        }),
        ("fb_biquad", |q| {
            let s = any_shape(q, 2, 3);
            match q.idx(0, 4) {
                0 => leaf(vec![A, F, Q, GAIN], h::fbell(s)), 1 => leaf(vec![A, F, Q], h::fhighpass(s)),
                2 => leaf(vec![A, F, Q], h::flowpass(s)), _ => leaf(vec![A, F, Q], h::fresonator(s)),
            }
        }),
        ("fb_biquad_hz", |q| {
            let s = any_shape(q, 2, 3);
            let v = vec![A];
            match q.idx(0, 4) {
                0 => leaf(v, h::fbell_hz(s, hz(q, 1), qq(q, 4), gg(q, 5))), 1 => leaf(v, g::fhighpass_hz(s, hz(q, 1), qq(q, 4))),
                2 => leaf(v, h::flowpass_hz(s, hz(q, 1), qq(q, 4))), _ => leaf(v, h::fresonator_hz(s, hz(q, 1), qq(q, 4))),
            }
        }),
        ("biquad_bank", |q| {
            let n = if q.flag(0) { 4 } else { 8 };
            let mut l = if q.flag(0) { leaf(vec![A; 4], h::biquad_bank()) } else { leaf(vec![A; 8], g::biquad_bank()).narrow() };
            for i in 0..n {
                let c = BiquadCoefs::<f32>::lowpass(44100.0, hz(q, 1) * 0.12 * (i + 1) as f32, qq(q, 2));
                l.unit.set(p::Setting::biquad(c.a1, c.a2, c.b0, c.b1, c.b2).index(i));
            }
            l.lti()
        }),
        // --- delays ---
        ("delay", |q| leaf(vec![A], h::delay(q.lin(0, 0.0, 0.004))).lti()),
        ("delay_long", |q| leaf(vec![A], h::delay(q.lin(0, 0.0, 0.02))).lti()),
        ("tap", |q| { let (lo, d) = (q.lin(0, 0.0, 0.002), q.lin(1, 0.0, 0.004)); leaf(vec![A, Range(lo, lo + d)], h::tap(lo, lo + d)) }),
        ("multitap", |q| { let (lo, d) = (q.lin(0, 0.0, 0.002), q.lin(1, 0.0, 0.004)); leaf(vec![A, Range(lo, lo + d), Range(lo, lo + d)], h::multitap::<U2>(lo, lo + d)) }),
        ("tap_linear", |q| { let (lo, d) = (q.lin(0, 0.0, 0.002), q.lin(1, 0.0, 0.004)); leaf(vec![A, Range(lo, lo + d)], h::tap_linear(lo, lo + d)) }),
        ("multitap_linear", |q| { let (lo, d) = (q.lin(0, 0.0, 0.002), q.lin(1, 0.0, 0.004)); leaf(vec![A, Range(lo, lo + d), Range(lo, lo + d)], h::multitap_linear::<U2>(lo, lo + d)) }),
        ("allnest", |q| leaf(vec![A, Range(-0.9, 0.9)], h::allnest(h::delay(q.lin(0, 0.0, 0.003))))),
        ("allnest_c", |q| leaf(vec![A], h::allnest_c(q.lin(1, -0.9, 0.9), h::delay(q.lin(0, 0.0, 0.003))))),
        ("allnest_filter", |q| leaf(vec![A], h::allnest_c(q.lin(1, -0.9, 0.9), h::lowpole_hz(hz(q, 0))))),
        // --- rate conversion ---
        ("oversample_sine", |_q| leaf(vec![Log(20.0, 8000.0)], h::oversample(h::sine())).tol(3.0e-4)),
        ("oversample_shape", |q| leaf(vec![A], h::oversample(h::shape(h::Tanh(q.lin(0, 0.5, 4.0)))))),
        ("oversample_filter", |q| leaf(vec![A, A], h::oversample(h::lowpole_hz(hz(q, 0)) | h::delay(q.lin(1, 0.0, 0.002))))),
        ("resample", |q| { let w = Arc::new(test_wave(1, 3000, 44100.0, 5)); leaf(vec![Range(0.1, 2.0)], h::resample(h::wavech(&w, 0, if q.flag(0) { Some(0) } else { None }))) }),
        ("resample_noise", |_q| leaf(vec![Range(0.1, 3.0)], h::resample(h::noise() | h::noise()))),
        // --- feedback ---
        ("feedback", |q| leaf(vec![A], h::feedback(h::delay(q.lin(0, 0.0, 0.004)) * q.lin(1, -0.8, 0.8)))),
        ("feedback2", |q| leaf(vec![A], h::feedback2(h::lowpole_hz(hz(q, 0)), h::delay(q.lin(2, 0.0, 0.003)) * q.lin(1, -0.8, 0.8)))),
        ("fdn", |q| { let (a, k) = (q.lin(0, 0.0005, 0.003), q.lin(1, 0.1, 0.9)); leaf(vec![A; 4], h::fdn::<U4, _>(h::stacki::<U4, _, _>(move |i| h::delay(a + i as f32 * 0.0007) >> h::fir((k * 0.5, k * 0.5))))) }),
        ("fdn2", |q| { let (a, k) = (q.lin(0, 0.0005, 0.003), q.lin(1, 0.1, 0.9)); leaf(vec![A; 2], h::fdn2::<U2, _, _>(h::stacki::<U2, _, _>(move |i| h::delay(a + i as f32 * 0.0007)), h::stacki::<U2, _, _>(move |_| h::mul(k)))) }),
        ("feedback_unit", |q| boxed(vec![A], Box::new(h::FeedbackUnit::new(q.lin(0, 0.0, 0.004) as f64, Box::new(h::lowpole_hz(hz(q, 1)) * q.lin(2, -0.8, 0.8)))))),
        // --- dynamics ---
        ("declick", |q| f64or32!(q, 0, vec![A], h::declick(), g::declick_s(q.log(1, 0.0005, 0.02)))),
        ("follow", |q| f64or32!(q, 0, vec![A], h::follow(q.log(1, 0.0005, 0.05)), g::follow(q.log(1, 0.0005, 0.05)))),
        ("afollow", |q| f64or32!(q, 0, vec![A], h::afollow(q.log(1, 0.0005, 0.05), q.log(2, 0.0005, 0.05)), g::afollow(q.log(1, 0.0005, 0.05), q.log(2, 0.0005, 0.05)))),
        ("limiter", |q| leaf(vec![Range(-3.0, 3.0)], h::limiter(q.log(0, 0.0003, 0.01), q.log(1, 0.0005, 0.05)))),
        ("limiter_stereo", |q| leaf(vec![Range(-3.0, 3.0), Range(-3.0, 3.0)], h::limiter_stereo(q.log(0, 0.0003, 0.01), q.log(1, 0.0005, 0.05)))),
        // --- shapes ---
        ("clip", |q| if q.flag(0) { leaf(vec![Range(-3.0, 3.0)], h::clip()) } else { leaf(vec![Range(-3.0, 3.0)], h::clip_to(q.lin(1, -1.0, 0.0), q.lin(2, 0.0, 1.0))) }),
        ("shape", |q| { let d = q.log(1, 0.1, 5.0); let v = vec![Range(-3.0, 3.0)]; match q.idx(0, 8) {
            0 => leaf(v, h::shape(h::Clip(d))), 1 => leaf(v, h::shape(h::Tanh(d))), 2 => leaf(v, h::shape(h::Atan(d))), 3 => leaf(v, h::shape(h::Softsign(d))),
            4 => leaf(v, h::shape(h::SoftCrush(d * 3.0))).tol(2.0e-4), 5 => leaf(v, h::shape(h::Adaptive::new(q.log(2, 0.01, 0.5), h::Tanh(d)))), 6 => leaf(v, h::shape(h::Adaptive::new(0.2, h::Adaptive::new(q.log(2, 0.01, 0.5), h::Tanh(d))))), _ => leaf(v, h::shape_fn(|x| x * x - 0.5)),
        } }),
        ("crush", |q| leaf(vec![Range(-3.0, 3.0)], h::shape(h::Crush(q.log(1, 0.3, 20.0))))),
        // --- panning ---
        ("panner", |_q| leaf(vec![A, Range(-1.0, 1.0)], h::panner())),
        ("pan", |q| leaf(vec![A], h::pan(q.lin(0, -1.0, 1.0))).lti()),
        // --- envelopes ---
        ("envelope", |q| { let (a, b) = (q.lin(0, -1.0, 1.0) as f64, q.lin(1, 0.5, 40.0) as f64); leaf(vec![], h::envelope(move |t: f64| (a * (t * b).sin(), (-t * b).exp()))).tol(2.0e-4) }),
        ("lfo", |q| { let b = q.lin(1, 0.5, 40.0); leaf(vec![], g::lfo(move |t: f32| (t * b).cos())).tol(2.0e-4) }),
        ("lfo2", |q| { let b = q.lin(1, 0.5, 40.0) as f64; leaf(vec![Range(0.0, 1.0)], h::lfo2(move |t: f64, x: f64| (t * b).cos() * x)).tol(2.0e-4) }),
        ("lfo3", |q| { let b = q.lin(1, 0.5, 40.0) as f64; leaf(vec![A, A], h::lfo3(move |t: f64, x: f64, y: f64| (t * b).cos() * x + y)).tol(2.0e-4) }),
        ("envelope_in", |q| { let b = q.lin(1, 0.5, 40.0) as f64; leaf(vec![A, A], h::envelope_in(move |t: f64, x: &Frame<f32, U2>| ((t * b).cos() * x[0] as f64, x[1] as f64))).tol(2.0e-4) }),
        ("adsr_live", |q| leaf(vec![Const(0.1, 1.0)], h::adsr_live(q.log(0, 0.001, 0.02), q.log(1, 0.001, 0.02), q.lin(2, 0.0, 1.0), q.log(3, 0.001, 0.02))).tol(2.0e-3)),
        // --- multi components ---
        ("busi", |q| { let f = hz(q, 0); leaf(vec![A], h::busi::<U3, _, _>(move |i| h::lowpole_hz(f * 0.5) * (i as f32 - 1.3))).lti() }),
        ("busf", |q| { let f = q.lin(0, 0.1, 1.0); leaf(vec![A], h::busf::<U3, _, _>(move |x| h::mul(x * f))).lti() }),
        ("stacki", |q| { let f = q.lin(0, 0.0, 0.002); leaf(vec![A; 3], h::stacki::<U3, _, _>(move |i| h::delay(f + i as f32 * 0.0003))).lti() }),
        ("stackf", |_q| leaf(vec![A; 2], h::stackf::<U2, _, _>(|x| h::mul(x + 0.5))).lti()),
        ("branchi", |q| { let f = q.lin(0, 0.0, 0.002); leaf(vec![A], h::branchi::<U3, _, _>(move |i| h::delay(f + i as f32 * 0.0003))).lti() }),
        ("branchf", |q| { let f = hz(q, 0); leaf(vec![A], h::branchf::<U2, _, _>(move |x| h::lowpole_hz(f) * x)).lti() }),
        ("sumi", |_q| leaf(vec![A; 3], h::sumi::<U3, _, _>(|i| h::mul(i as f32 + 0.5))).lti()),
        ("sumf", |_q| leaf(vec![A; 4], h::sumf::<U4, _, _>(|x| h::pan(x * 2.0 - 1.0))).lti()),
        ("pipei", |q| { let f = hz(q, 0); leaf(vec![A], h::pipei::<U3, _, _>(move |i| h::lowpole_hz(f / (i as f32 + 1.0)))).lti() }),
        ("pipef", |_q| leaf(vec![A], h::pipef::<U5, _, _>(|x| h::delay(x * 0.001))).lti()),
        ("busi_noise", |_q| leaf(vec![], h::busi::<U3, _, _>(|_i| h::noise()))),
        ("thru", |q| leaf(vec![A, A], h::thru(h::sink() | h::lowpole_hz(hz(q, 0)))).lti()),
        ("unop", |q| { let f = hz(q, 0); leaf(vec![A], -h::lowpole_hz(f) * 0.5).lti() }),
        ("binops", |q| { let f = hz(q, 0); match q.idx(1, 3) { 0 => leaf(vec![A, A], h::lowpole_hz(f) * h::pass()), 1 => leaf(vec![A, A], h::lowpole_hz(f) - h::pass()).lti(), _ => leaf(vec![A, A], h::lowpole_hz(f) + h::highpole_hz(f)).lti() } }),
        // --- waves ---
        ("wavech", |q| {
            let len = 1 + (q.u(0) * 300.0) as usize;
            let w = Arc::new(test_wave(2, len, 44100.0, q.seed(1)));
            let lp = if q.flag(2) { Some((q.u(3) * (len - 1) as f64) as usize) } else { None };
            leaf(vec![], h::wavech(&w, q.idx(4, 2), lp))
        }),
        ("wavech_at", |q| {
            let len = 3 + (q.u(0) * 300.0) as usize;
            let w = Arc::new(test_wave(1, len, 44100.0, q.seed(1)));
            let start = (q.u(2) * (len - 2) as f64) as usize;
            let end = start + 1 + (q.u(3) * (len - start - 1) as f64) as usize;
            let lp = if q.flag(5) { Some(start + ((end - start - 1) as f64 * q.u(4)) as usize) } else { None };
            leaf(vec![], h::wavech_at(&w, 0, start, end, lp))
        }),
        // --- effects ---
        ("resynth", |q| { let n = 1usize << (2 + q.idx(0, 8)); let k = 1 + q.idx(1, 4); leaf(vec![A], h::resynth::<U1, U1, _>(n, move |w| for i in 0..w.bins() { if i % k == 0 { w.set(0, i, w.at(0, i)) } })) }),
        ("resynth2", |q| { let n = 1usize << (2 + q.idx(0, 6)); leaf(vec![A, A], h::resynth::<U2, U2, _>(n, move |w| for i in 0..w.bins() { w.set(0, i, w.at(1, i)); w.set(1, i, w.at(0, i)) })) }),
        ("chorus", |q| leaf(vec![A], h::chorus(q.seed(0), q.lin(1, 0.001, 0.004), q.lin(2, 0.0005, 0.002), q.lin(3, 0.1, 2.0))).tol(2.0e-2)),
        ("flanger", |q| { let w = q.lin(0, 0.1, 10.0); leaf(vec![A], h::flanger(q.lin(1, 0.1, 0.9), 0.001, 0.004, move |t| 0.0025 + 0.0015 * (t * w).sin())).tol(2.0e-2) }),
        ("phaser", |q| { let w = q.lin(0, 0.1, 10.0); leaf(vec![A], h::phaser(q.lin(1, 0.1, 0.8), move |t| 0.5 + 0.5 * (t * w).sin())).tol(2.0e-2) }),
        ("reverb_stereo", |q| leaf(vec![A, A], h::reverb_stereo(q.lin(0, 10.0, 20.0), q.lin(1, 0.5, 4.0), q.lin(2, 0.0, 1.0)))),
        ("reverb2_stereo", |q| leaf(vec![A, A], h::reverb2_stereo(q.lin(0, 10.0, 20.0), q.lin(1, 0.5, 4.0), q.lin(2, 0.0, 1.0), q.lin(3, 0.1, 2.0), h::highshelf_hz(3000.0, 1.0, 0.8))).tol(2.0e-3)),
        ("reverb3_stereo", |q| leaf(vec![A, A], h::reverb3_stereo(q.lin(1, 0.5, 4.0), q.lin(2, 0.0, 1.0), h::lowpole_hz(8000.0)))),
        ("reverb4_stereo", |q| leaf(vec![A, A], h::reverb4_stereo(q.lin(0, 10.0, 20.0), q.lin(1, 0.5, 4.0)))),
        ("update", |q| { let f = q.lin(0, 10.0, 100.0); leaf(vec![A], h::update(h::lowpole_hz(1000.0), 1.0, move |t, _dt, x| x.set(p::Setting::center(1000.0 + t * f)))) }),
        ("slot", |q| { let (_s, b) = h::Slot::new(Box::new(h::lowpole_hz(hz(q, 0)))); boxed(vec![A], Box::new(b)) }),
        ("listen", |q| { let (_s, b) = h::listen(h::lowpole_hz(hz(q, 0))); leaf(vec![A], b) }),
        ("snoop", |_q| { let (_s, b) = h::snoop(64); leaf(vec![A], b).lti() }),
        ("block_adapter", |q| boxed(vec![], Box::new(h::BlockRateAdapter::new(Box::new(h::sine_hz(hz(q, 0)) | h::noise()))) ).tol(3.0e-4)),
        ("granular", |q| {
            let gen = |_t: f64, _b: f32, v: f32, x: f32, y: f32, _z: f32| -> (f32, f32, Box<dyn AudioUnit>) {
                (0.012, 0.005, Box::new(h::sine_hz(h::xerp11(100.0, 4000.0, x)) * h::xerp11(0.02, 0.2, y) >> h::pan(v * 0.5)))
            };
            boxed(vec![], Box::new(h::Granular::new(2, 1 + q.idx(0, 4), q.lin(1, 0.005, 0.02), 4, q.seed(2), 0.2, 1.0, q.lin(3, 0.0, 0.01), gen))).tol(1.0e-3)
        }),
        ("sine64_hz", |q| leaf(vec![], h::sine_hz(hz(q, 0))).tol(3.0e-4)),
        ("rotate32", |q| leaf(vec![A, A], h::rotate(q.lin(0, 0.0, 6.0), 1.0) >> h::reverse::<U2>()).lti()),
        ("convert_pipe", |q| leaf(vec![A], h::split::<U8>() >> h::stacki::<U8, _, _>(|i| h::delay(i as f32 * 0.0001)) >> h::join::<U8>() * q.lin(0, 0.1, 1.0)).lti()),
        ("big_sum", |_q| leaf(vec![A], h::split::<U32>() >> h::sumf::<U32, _, _>(|x| h::pan(x))).lti()),
        ("mixer", |q| {
            macro_rules! m { ($M:ident, $N:ident) => {{
                let w = |i: usize, j: usize| { let x = (q.u(1 + (i * 2 + j) % 5) * 1.7 + i as f64 * 0.61 + j as f64 * 0.37).fract() as f32 * 2.0 - 1.0; if x.abs() < 0.05 { 0.5 } else { x } };
                let m: Frame<Frame<f32, $M>, $N> = Frame::generate(|i| Frame::generate(|j| w(i, j)));
                let l: An<h::Mixer<$M, $N>> = An(h::Mixer::<$M, $N>::new(m));
                let n = l.inputs();
                leaf(vec![A; n], l).lti()
            }} }
            match q.idx(0, 9) { 0 => m!(U1, U1), 1 => m!(U1, U2), 2 => m!(U1, U3), 3 => m!(U2, U1), 4 => m!(U2, U2), 5 => m!(U2, U3), 6 => m!(U3, U1), 7 => m!(U3, U2), _ => m!(U3, U3) }
        }),
        ("stacki_multi", |q| match q.idx(0, 3) {
            0 => leaf(vec![A; 4], h::stacki::<U2, _, _>(|i| h::join::<U2>() * (i as f32 + 0.5))),
            1 => leaf(vec![A; 4], h::stacki::<U2, _, _>(|i| h::reverse::<U2>() >> (h::pass() | h::mul(i as f32 + 0.5)))),
            _ => leaf(vec![A; 6], h::stacki::<U3, _, _>(|i| h::rotate(i as f32, 1.0) >> h::multitick::<U2>())),
        }.lti()),
        ("sumi_multi", |q| match q.idx(0, 3) {
            0 => leaf(vec![A; 4], h::sumi::<U2, _, _>(|i| h::join::<U2>() * (i as f32 + 0.5))),
            1 => leaf(vec![A; 4], h::sumi::<U2, _, _>(|i| h::reverse::<U2>() >> (h::pass() | h::mul(i as f32 + 0.5)))),
            _ => leaf(vec![A; 6], h::sumi::<U3, _, _>(|i| h::rotate(i as f32, 1.0) >> h::multitick::<U2>())),
        }.lti()),
        ("busi_multi", |q| match q.idx(0, 2) {
            0 => leaf(vec![A; 2], h::busi::<U3, _, _>(|i| h::join::<U2>() * (i as f32 + 0.5))),
            _ => leaf(vec![A; 2], h::branchi::<U2, _, _>(|i| h::reverse::<U2>() >> (h::tick() | h::mul(i as f32 + 0.5)))),
        }.lti()),
        ("p32_svf", |q| leaf(vec![A], p::lowpass_hz::<f32>(hz(q, 0), qq(q, 1)) >> p::dcblock_hz::<f32>(20.0)).narrow().lti()),
    ]
}

pub fn gen_kind(src: &mut Src, kind: usize) -> LeafSpec {
    // The last parameter is the position hash, see `build`.
    let p: Vec<f64> = (0..7).map(|_| src.below(1025) as f64 / 1024.0).collect();
    let l = catalogue()[kind].1(&P(&p));
    LeafSpec { kind, p, name: catalogue()[kind].0, ins: l.ins.len(), outs: l.outs }
}
/// Entry `kind` with the given parameters.
pub fn spec_with(kind: usize, p: Vec<f64>) -> LeafSpec {
    let l = catalogue()[kind].1(&P(&p));
    LeafSpec { kind, p, name: catalogue()[kind].0, ins: l.ins.len(), outs: l.outs }
}
/// A mixer of any arity in 1...3.
pub fn gen_mixer(src: &mut Src, ins: usize, outs: usize) -> LeafSpec {
    let mut p: Vec<f64> = (0..6).map(|_| src.below(1025) as f64 / 1024.0).collect();
    p[0] = ((ins - 1) * 3 + outs - 1) as f64 / 9.0 + 0.05;
    spec_with(kind_index("mixer"), p)
}
pub fn gen_spec(src: &mut Src) -> LeafSpec {
    let kind = src.below(catalogue().len() as u64) as usize;
    gen_kind(src, kind)
}
/// Builds a leaf. More often than not it gets a position hash like it would inside a graph.
pub fn build(s: &LeafSpec) -> Leaf {
    let mut l = catalogue()[s.kind].1(&P(&s.p));
    if s.p.len() > 6 && s.p[6] > 0.4 {
        l.unit.ping(false, h::AttoHash::new((s.p[6] * 1024.0) as u64));
    }
    l
}
/// For `vfgraph`.
pub fn provider() -> vfcore::probe::Provider {
    vfcore::probe::Provider { gen: |src, name| gen_kind(src, kind_index(name)), build: |s| { let l = build(s); (l.ins, l.unit) } }
}
pub fn kind_index(name: &str) -> usize {
    catalogue().iter().position(|x| x.0 == name).unwrap_or_else(|| panic!("no catalogue entry {}", name))
}

#[allow(unused)]
type Unused = (U0, U3);
