//! C33: every prelude and every shorthand of an opcode builds the same unit.
use fundsp::hacker as h;
use fundsp::hacker32 as g;
use fundsp::prelude as p;
use fundsp::hacker::{AudioNode, AudioUnit, Frame, Net, Wave, U1, U2, U3, U4, U5};
use std::sync::{Arc, OnceLock};
use vfcore::render::{describe_steps, diff, gen_steps, peak, render, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

/// Input kinds: a audio, f frequency, q Q value, g gain, u unit interval, b -1...1, d delay time.
fn gen_in(src: &mut Src, kinds: &str, n: usize) -> Sig {
    kinds.chars().map(|k| {
        let steady = src.bool();
        let mut v = 0.0f32;
        let s = src.seed();
        (0..n).map(|i| {
            let r = mix(s ^ mix(i as u64));
            if i == 0 || !steady || r % 50 == 0 {
                let u = ((r >> 20) & 0xffffff) as f32 / 16777216.0;
                v = match k {
                    'a' => u * 2.0 - 1.0,
                    'f' => 80.0 * (50.0f32).powf(u),
                    'q' => 0.5 + 4.0 * u,
                    'g' => 0.25 + 3.0 * u,
                    'u' => 0.05 + 0.9 * u,
                    'b' => u * 2.0 - 1.0,
                    _ => 0.001 + 0.01 * u,
                };
            }
            // Audio is never steady.
            if k == 'a' { v = ((r >> 20) & 0xffffff) as f32 / 8388608.0 - 1.0; }
            v
        }).collect()
    }).collect()
}

struct Op {
    name: &'static str,
    kinds: &'static str,
    /// Ranges of parameters by the same letters.
    params: &'static str,
    /// [hacker, hacker32, prelude 64, prelude 32]
    make: fn(&[f32], usize) -> Un,
    /// Tolerance between the 64-bit and the 32-bit form (0: must be equal, negative: not compared).
    tol: f64,
}

macro_rules! bx { ($e:expr) => { Box::new($e) as Un } }
// Parameters are passed in the parameter type of the prelude.
macro_rules! real {
    ($n:ident, $k:expr, $p:expr, $tol:expr, $($i:expr),*) => {
        Op { name: stringify!($n), kinds: $k, params: $p, tol: $tol, make: |_x, w| match w {
            0 => bx!(h::$n($(_x[$i]),*)),
            1 => bx!(g::$n($(_x[$i]),*)),
            2 => bx!(p::$n::<f64>($(_x[$i] as f64),*)),
            _ => bx!(p::$n::<f32>($(_x[$i]),*)),
        } }
    };
}
// Parameters are f32 everywhere, the state type is generic.
macro_rules! state {
    ($n:ident, $k:expr, $p:expr, $tol:expr, $($i:expr),*) => {
        Op { name: stringify!($n), kinds: $k, params: $p, tol: $tol, make: |_x, w| match w {
            0 => bx!(h::$n($(_x[$i]),*)),
            1 => bx!(g::$n($(_x[$i]),*)),
            2 => bx!(p::$n::<f64>($(_x[$i]),*)),
            _ => bx!(p::$n::<f32>($(_x[$i]),*)),
        } }
    };
}
// Distorted biquads take a shape.
macro_rules! shaped {
    ($n:ident, $k:expr, $p:expr, $($i:expr),*) => {
        Op { name: stringify!($n), kinds: $k, params: $p, tol: -1.0, make: |_x, w| match w {
            0 => bx!(h::$n(h::Softsign(0.5), $(_x[$i]),*)),
            1 => bx!(g::$n(h::Softsign(0.5), $(_x[$i]),*)),
            2 => bx!(p::$n::<f64, _>(h::Softsign(0.5), $(_x[$i] as f64),*)),
            _ => bx!(p::$n::<f32, _>(h::Softsign(0.5), $(_x[$i]),*)),
        } }
    };
}
// Not generic: all forms must be equal.
macro_rules! plain {
    ($n:expr, $k:expr, $p:expr, |$m:ident, $x:ident| $e:expr) => {
        Op { name: $n, kinds: $k, params: $p, tol: 0.0, make: |$x, w| match w {
            0 => { use fundsp::hacker as $m; bx!($e) }
            1 => { use fundsp::hacker32 as $m; bx!($e) }
            _ => { use fundsp::prelude as $m; bx!($e) }
        } }
    };
}
// Parameters are f32 in the hackers, f64 in the prelude.
macro_rules! wide {
    ($n:expr, $k:expr, $p:expr, |$m:ident, $x:ident| $e:expr, $e64:expr) => {
        Op { name: $n, kinds: $k, params: $p, tol: 0.0, make: |$x, w| match w {
            0 => { use fundsp::hacker as $m; bx!($e) }
            1 => { use fundsp::hacker32 as $m; bx!($e) }
            _ => { use fundsp::prelude as $m; bx!($e64) }
        } }
    };
}

fn wave() -> &'static Arc<Wave> {
    static W: OnceLock<Arc<Wave>> = OnceLock::new();
    W.get_or_init(|| {
        let mut w = Wave::zero(2, 44100.0, 100.0 / 44100.0);
        for c in 0..2 { for i in 0..100 { w.set(c, i, (i as f32 * 0.37 + c as f32).sin()); } }
        Arc::new(w)
    })
}

fn ops() -> &'static [Op] {
    static O: OnceLock<Vec<Op>> = OnceLock::new();
    O.get_or_init(|| vec![
        // Filters of generic precision.
        real!(butterpass, "af", "", 2.0e-3,), real!(butterpass_hz, "a", "f", 2.0e-3, 0),
        real!(lowpole, "af", "", 2.0e-3,), real!(lowpole_hz, "a", "f", 2.0e-3, 0),
        real!(highpole, "af", "", 2.0e-3,), real!(highpole_hz, "a", "f", 2.0e-3, 0),
        real!(allpole, "ag", "", 2.0e-3,), real!(allpole_delay, "a", "g", 2.0e-3, 0),
        real!(resonator, "afq", "", 5.0e-2,), real!(resonator_hz, "a", "fq", 5.0e-2, 0, 1),
        real!(moog, "afu", "", 2.0e-2,), real!(moog_q, "af", "u", 2.0e-2, 0), real!(moog_hz, "a", "fu", 2.0e-2, 0, 1),
        real!(lowpass, "afq", "", 5.0e-3,), real!(lowpass_hz, "a", "fq", 5.0e-3, 0, 1), real!(lowpass_q, "af", "q", 5.0e-3, 0),
        real!(highpass, "afq", "", 5.0e-3,), real!(highpass_hz, "a", "fq", 5.0e-3, 0, 1), real!(highpass_q, "af", "q", 5.0e-3, 0),
        real!(bandpass, "afq", "", 5.0e-3,), real!(bandpass_hz, "a", "fq", 5.0e-3, 0, 1), real!(bandpass_q, "af", "q", 5.0e-3, 0),
        real!(notch, "afq", "", 5.0e-3,), real!(notch_hz, "a", "fq", 5.0e-3, 0, 1), real!(notch_q, "af", "q", 5.0e-3, 0),
        real!(peak, "afq", "", 5.0e-3,), real!(peak_hz, "a", "fq", 5.0e-3, 0, 1), real!(peak_q, "af", "q", 5.0e-3, 0),
        real!(allpass, "afq", "", 5.0e-3,), real!(allpass_hz, "a", "fq", 5.0e-3, 0, 1), real!(allpass_q, "af", "q", 5.0e-3, 0),
        real!(bell, "afqg", "", 1.0e-2,), real!(bell_hz, "a", "fqg", 1.0e-2, 0, 1, 2), real!(bell_q, "af", "qg", 1.0e-2, 0, 1),
        real!(lowshelf, "afqg", "", 1.0e-2,), real!(lowshelf_hz, "a", "fqg", 1.0e-2, 0, 1, 2), real!(lowshelf_q, "af", "qg", 1.0e-2, 0, 1),
        real!(highshelf, "afqg", "", 1.0e-2,), real!(highshelf_hz, "a", "fqg", 1.0e-2, 0, 1, 2), real!(highshelf_q, "af", "qg", 1.0e-2, 0, 1),
        real!(lowrez, "afu", "", 1.0e-2,), real!(lowrez_hz, "a", "fu", 1.0e-2, 0, 1), real!(lowrez_q, "af", "u", 1.0e-2, 0),
        real!(bandrez, "afu", "", 1.0e-2,), real!(bandrez_hz, "a", "fu", 1.0e-2, 0, 1), real!(bandrez_q, "af", "u", 1.0e-2, 0),
        real!(morph, "afqb", "", 1.0e-2,), real!(morph_hz, "a", "fqb", 1.0e-2, 0, 1, 2),
        real!(dcblock, "a", "", 2.0e-3,), real!(dcblock_hz, "a", "f", 2.0e-3, 0),
        real!(declick, "a", "", 1.0e-3,), real!(declick_s, "a", "d", 1.0e-3, 0),
        real!(follow, "a", "d", 1.0e-3, 0), real!(afollow, "a", "dd", 1.0e-3, 0, 1),
        real!(pinkpass, "a", "", 1.0e-3,), real!(pink, "", "", 1.0e-3,), real!(brown, "", "", 1.0e-3,),
        Op { name: "biquad", kinds: "a", params: "bbbbb", tol: 1.0e-2, make: |x, w| {
            let (a1, a2) = (x[0] * 0.9, x[1] * 0.05 - 0.02);
            match w {
                0 => bx!(h::biquad(a1, a2, x[2], x[3], x[4])),
                1 => bx!(g::biquad(a1, a2, x[2], x[3], x[4])),
                2 => bx!(p::biquad::<f64>(a1 as f64, a2 as f64, x[2] as f64, x[3] as f64, x[4] as f64)),
                _ => bx!(p::biquad::<f32>(a1, a2, x[2], x[3], x[4])),
            }
        } },
        shaped!(dbell, "afqg", "",), shaped!(fbell, "afqg", "",), shaped!(dhighpass, "afq", "",), shaped!(fhighpass, "afq", "",),
        shaped!(dlowpass, "afq", "",), shaped!(flowpass, "afq", "",), shaped!(dresonator, "afq", "",), shaped!(fresonator, "afq", "",),
        shaped!(dbell_hz, "a", "fqg", 0, 1, 2), shaped!(fbell_hz, "a", "fqg", 0, 1, 2),
        shaped!(dhighpass_hz, "a", "fq", 0, 1), shaped!(fhighpass_hz, "a", "fq", 0, 1),
        shaped!(dlowpass_hz, "a", "fq", 0, 1), shaped!(flowpass_hz, "a", "fq", 0, 1),
        shaped!(dresonator_hz, "a", "fq", 0, 1), shaped!(fresonator_hz, "a", "fq", 0, 1),
        // Oscillators of generic precision.
        state!(sine, "f", "", 1.0e-3,), state!(sine_hz, "", "f", 1.0e-3, 0), state!(ramp, "f", "", -1.0,), state!(ramp_hz, "", "f", -1.0, 0),
        state!(poly_saw, "f", "", -1.0,), state!(poly_saw_hz, "", "f", -1.0, 0), state!(poly_square, "f", "", -1.0,), state!(poly_square_hz, "", "f", -1.0, 0),
        state!(poly_pulse, "fu", "", -1.0,), state!(poly_pulse_hz, "", "fu", -1.0, 0, 1),
        // Envelopes: the time type is that of the prelude.
        Op { name: "envelope", kinds: "", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::envelope(move |t: f64| (t * 20.0).sin() * a as f64)), 1 => bx!(g::envelope(move |t: f32| (t * 20.0).sin() * a)),
            2 => bx!(p::envelope(move |t: f64| (t * 20.0).sin() * a as f64)), _ => bx!(p::envelope(move |t: f32| (t * 20.0).sin() * a)) } } },
        Op { name: "lfo", kinds: "", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::lfo(move |t: f64| ((t * 20.0).sin() * a as f64, a as f64))), 1 => bx!(g::lfo(move |t: f32| ((t * 20.0).sin() * a, a))),
            2 => bx!(p::lfo(move |t: f64| ((t * 20.0).sin() * a as f64, a as f64))), _ => bx!(p::lfo(move |t: f32| ((t * 20.0).sin() * a, a))) } } },
        Op { name: "envelope2", kinds: "u", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::envelope2(move |t: f64, y: f64| t * 9.0 + y * a as f64)), 1 => bx!(g::envelope2(move |t: f32, y: f32| t * 9.0 + y * a)),
            2 => bx!(p::envelope2(move |t: f64, y: f64| t * 9.0 + y * a as f64)), _ => bx!(p::envelope2(move |t: f32, y: f32| t * 9.0 + y * a)) } } },
        Op { name: "lfo2", kinds: "u", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::lfo2(move |t: f64, y: f64| t * 9.0 + y * a as f64)), 1 => bx!(g::lfo2(move |t: f32, y: f32| t * 9.0 + y * a)),
            2 => bx!(p::lfo2(move |t: f64, y: f64| t * 9.0 + y * a as f64)), _ => bx!(p::lfo2(move |t: f32, y: f32| t * 9.0 + y * a)) } } },
        Op { name: "envelope3", kinds: "ub", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::envelope3(move |t: f64, y: f64, z: f64| t * 9.0 + y * a as f64 - z)), 1 => bx!(g::envelope3(move |t: f32, y: f32, z: f32| t * 9.0 + y * a - z)),
            2 => bx!(p::envelope3(move |t: f64, y: f64, z: f64| t * 9.0 + y * a as f64 - z)), _ => bx!(p::envelope3(move |t: f32, y: f32, z: f32| t * 9.0 + y * a - z)) } } },
        Op { name: "lfo3", kinds: "ub", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::lfo3(move |t: f64, y: f64, z: f64| t * 9.0 + y * a as f64 - z)), 1 => bx!(g::lfo3(move |t: f32, y: f32, z: f32| t * 9.0 + y * a - z)),
            2 => bx!(p::lfo3(move |t: f64, y: f64, z: f64| t * 9.0 + y * a as f64 - z)), _ => bx!(p::lfo3(move |t: f32, y: f32, z: f32| t * 9.0 + y * a - z)) } } },
        Op { name: "envelope_in", kinds: "ub", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::envelope_in(move |t: f64, i: &Frame<f32, U2>| t * 9.0 + (i[0] * a - i[1]) as f64)), 1 => bx!(g::envelope_in(move |t: f32, i: &Frame<f32, U2>| t * 9.0 + i[0] * a - i[1])),
            2 => bx!(p::envelope_in(move |t: f64, i: &Frame<f32, U2>| t * 9.0 + (i[0] * a - i[1]) as f64)), _ => bx!(p::envelope_in(move |t: f32, i: &Frame<f32, U2>| t * 9.0 + i[0] * a - i[1])) } } },
        Op { name: "lfo_in", kinds: "ub", params: "u", tol: 1.0e-3, make: |x, w| { let a = x[0]; match w {
            0 => bx!(h::lfo_in(move |t: f64, i: &Frame<f32, U2>| t * 9.0 + (i[0] * a - i[1]) as f64)), 1 => bx!(g::lfo_in(move |t: f32, i: &Frame<f32, U2>| t * 9.0 + i[0] * a - i[1])),
            2 => bx!(p::lfo_in(move |t: f64, i: &Frame<f32, U2>| t * 9.0 + (i[0] * a - i[1]) as f64)), _ => bx!(p::lfo_in(move |t: f32, i: &Frame<f32, U2>| t * 9.0 + i[0] * a - i[1])) } } },
        // The same in every prelude.
        plain!("constant", "", "bb", |m, x| m::constant((x[0], x[1]))), plain!("dc", "", "bb", |m, x| m::dc((x[0], x[1]))),
        plain!("zero", "", "", |m, _x| m::zero()), plain!("multizero", "", "", |m, _x| m::multizero::<U3>()),
        plain!("pass", "a", "", |m, _x| m::pass()), plain!("multipass", "aaa", "", |m, _x| m::multipass::<U3>()),
        plain!("sink", "a", "", |m, _x| m::sink()), plain!("multisink", "aaa", "", |m, _x| m::multisink::<U2>() | m::pass()),
        plain!("reverse", "aaa", "", |m, _x| m::reverse::<U3>()), plain!("rossler", "f", "", |m, _x| m::rossler()), plain!("lorenz", "f", "", |m, _x| m::lorenz()),
        plain!("add", "aa", "bb", |m, x| m::add((x[0], x[1]))), plain!("sub", "aa", "bb", |m, x| m::sub((x[0], x[1]))), plain!("mul", "aa", "bb", |m, x| m::mul((x[0], x[1]))),
        plain!("adsr_live", "b", "ddud", |m, x| m::adsr_live(x[0], x[1], x[2], x[3])),
        plain!("mls_bits", "", "u", |m, x| m::mls_bits(1 + (x[0] * 30.0) as u64)), plain!("mls", "", "", |m, _x| m::mls()),
        plain!("noise", "", "", |m, _x| m::noise()), plain!("white", "", "", |m, _x| m::white()),
        plain!("hold", "af", "u", |m, x| m::hold(x[0])), plain!("hold_hz", "a", "fu", |m, x| m::hold_hz(x[0], x[1])),
        plain!("fir", "a", "bbb", |m, x| m::fir((x[0], x[1], x[2]))), plain!("fir3", "a", "u", |m, x| m::fir3(x[0])),
        plain!("tick", "a", "", |m, _x| m::tick()), plain!("multitick", "aa", "", |m, _x| m::multitick::<U2>()),
        wide!("delay", "a", "d", |m, x| m::delay(x[0]), m::delay(x[0] as f64)),
        plain!("tap", "ad", "", |m, _x| m::tap(0.001, 0.01)), plain!("multitap", "add", "", |m, _x| m::multitap::<U2>(0.002, 0.009)),
        plain!("tap_linear", "ad", "", |m, _x| m::tap_linear(0.001, 0.01)), plain!("multitap_linear", "add", "", |m, _x| m::multitap_linear::<U2>(0.002, 0.009)),
        plain!("oversample", "a", "", |m, _x| m::oversample(m::shape(m::Tanh(2.0)))), plain!("resample", "u", "f", |m, x| m::resample(m::constant(x[0]) >> m::saw())),
        plain!("feedback", "a", "d", |m, x| m::feedback((m::pass() | m::dc(x[0])) >> m::tap(0.0, 0.02) * 0.5)),
        plain!("feedback2", "a", "b", |m, x| m::feedback2(m::tick(), m::mul(x[0] * 0.9))),
        plain!("allnest", "ab", "", |m, _x| m::allnest(m::tick())), plain!("allnest_c", "a", "b", |m, x| m::allnest_c(x[0] * 0.9, m::multitick::<U1>())),
        plain!("map", "aa", "b", |m, x| { let a = x[0]; m::map(move |i: &Frame<f32, U2>| (i[0] * a, i[1])) }),
        plain!("shape_fn", "a", "b", |m, x| { let a = x[0]; m::shape_fn(move |y| y * y * a) }), plain!("shape", "a", "u", |m, x| m::shape(m::Crush(1.0 + 20.0 * x[0]))),
        plain!("clip", "a", "", |m, _x| m::mul(3.0) >> m::clip()), plain!("clip_to", "a", "u", |m, x| m::clip_to(-x[0], x[0] * 0.5)),
        plain!("panner", "ab", "", |m, _x| m::panner()), plain!("pan", "a", "b", |m, x| m::pan(x[0])),
        plain!("limiter", "a", "dd", |m, x| m::mul(3.0) >> m::limiter(x[0], x[1])), plain!("limiter_stereo", "aa", "dd", |m, x| m::mul((3.0, 0.2)) >> m::limiter_stereo(x[0], x[1])),
        plain!("fdn", "aa", "d", |m, x| { let d = x[0]; m::fdn::<U2, _>(m::stacki::<U2, _, _>(move |i| m::delay((d * (1 + i) as f32) as _) >> m::mul(0.7))) }),
        plain!("fdn2", "aa", "u", |m, x| { let d = x[0]; m::fdn2::<U2, _, _>(m::multitick::<U2>(), m::mul((d, d * 0.5))) }),
        plain!("bus", "a", "b", |m, x| m::bus(m::tick(), m::mul(x[0]))), plain!("stack", "aa", "b", |m, x| m::stack(m::tick(), m::mul(x[0]))), plain!("branch", "a", "b", |m, x| m::branch(m::tick(), m::mul(x[0]))),
        plain!("product", "aa", "b", |m, x| m::product(m::tick(), m::mul(x[0]))), plain!("sum", "aa", "b", |m, x| m::sum(m::tick(), m::mul(x[0]))), plain!("pipe", "a", "b", |m, x| m::pipe(m::tick(), m::mul(x[0]))),
        plain!("thru", "aa", "b", |m, x| m::thru(m::mul((x[0], 1.0)) >> m::join::<U2>())),
        plain!("busi", "a", "", |m, _x| m::busi::<U3, _, _>(|i| m::mul(i as f32 + 0.5))), plain!("stacki", "aaa", "", |m, _x| m::stacki::<U3, _, _>(|i| m::mul(i as f32 + 0.5))),
        plain!("branchi", "a", "", |m, _x| m::branchi::<U3, _, _>(|i| m::mul(i as f32 + 0.5))), plain!("sumi", "aaa", "", |m, _x| m::sumi::<U3, _, _>(|i| m::mul(i as f32 + 0.5))), plain!("pipei", "a", "", |m, _x| m::pipei::<U3, _, _>(|i| m::mul(i as f32 + 0.5))),
        wide!("busf", "a", "", |m, _x| m::busf::<U5, _, _>(|x: f32| m::mul(x + 0.5)), m::busf::<U5, _, _, f32>(|x: f32| m::mul(x + 0.5))), wide!("stackf", "aaaaa", "", |m, _x| m::stackf::<U5, _, _>(|x: f32| m::mul(x + 0.5)), m::stackf::<U5, _, _, f32>(|x: f32| m::mul(x + 0.5))),
        wide!("branchf", "a", "", |m, _x| m::branchf::<U5, _, _>(|x: f32| m::mul(x + 0.5)), m::branchf::<U5, _, _, f32>(|x: f32| m::mul(x + 0.5))), wide!("sumf", "aaaaa", "", |m, _x| m::sumf::<U5, _, _>(|x: f32| m::mul(x + 0.5)), m::sumf::<U5, _, _, f32>(|x: f32| m::mul(x + 0.5))), wide!("pipef", "a", "", |m, _x| m::pipef::<U5, _, _>(|x: f32| m::mul(x + 0.5)), m::pipef::<U5, _, _, f32>(|x: f32| m::mul(x + 0.5))),
        plain!("split", "a", "", |m, _x| m::split::<U3>()), plain!("multisplit", "aa", "", |m, _x| m::multisplit::<U2, U3>()),
        plain!("join", "aaa", "", |m, _x| m::join::<U3>()), plain!("multijoin", "aaaaaa", "", |m, _x| m::multijoin::<U2, U3>()),
        wide!("reverb_stereo", "aa", "uuu", |m, x| m::reverb_stereo(x[0] * 30.0, x[1] * 5.0, x[2]), m::reverb_stereo((x[0] * 30.0) as f64, (x[1] * 5.0) as f64, x[2] as f64)),
        wide!("reverb2_stereo", "aa", "uuuu", |m, x| m::reverb2_stereo(x[0] * 30.0, x[1] * 5.0, x[2], x[3] * 2.0, h::lowpole_hz(8000.0)), m::reverb2_stereo((x[0] * 30.0) as f64, (x[1] * 5.0) as f64, x[2] as f64, (x[3] * 2.0) as f64, h::lowpole_hz(8000.0))),
        wide!("reverb3_stereo", "aa", "uu", |m, x| m::reverb3_stereo(x[0] * 5.0, x[1], h::lowpole_hz(8000.0)), m::reverb3_stereo((x[0] * 5.0) as f64, x[1] as f64, h::lowpole_hz(8000.0))),
        wide!("reverb4_stereo", "aa", "uu", |m, x| m::reverb4_stereo(15.0 + x[0] * 15.0, x[1] * 5.0), m::reverb4_stereo((15.0 + x[0] * 15.0) as f64, (x[1] * 5.0) as f64)),
        wide!("reverb4_stereo_delays", "aa", "uu", |m, x| m::reverb4_stereo_delays(&dels(x[0]), x[1] * 5.0), m::reverb4_stereo_delays(&dels(x[0]), (x[1] * 5.0) as f64)),
        plain!("dsf_saw", "fu", "", |m, _x| m::dsf_saw()), plain!("dsf_saw_r", "f", "u", |m, x| m::dsf_saw_r(x[0])), plain!("dsf_square", "fu", "", |m, _x| m::dsf_square()), plain!("dsf_square_r", "f", "u", |m, x| m::dsf_square_r(x[0])),
        plain!("pluck", "a", "fuu", |m, x| m::pluck(x[0], x[1], x[2])),
        plain!("saw", "f", "", |m, _x| m::saw()), plain!("square", "f", "", |m, _x| m::square()), plain!("triangle", "f", "", |m, _x| m::triangle()), plain!("organ", "f", "", |m, _x| m::organ()), plain!("soft_saw", "f", "", |m, _x| m::soft_saw()), plain!("hammond", "f", "", |m, _x| m::hammond()), plain!("pulse", "fu", "", |m, _x| m::pulse()),
        plain!("saw_hz", "", "f", |m, x| m::saw_hz(x[0])), plain!("square_hz", "", "f", |m, x| m::square_hz(x[0])), plain!("triangle_hz", "", "f", |m, x| m::triangle_hz(x[0])), plain!("organ_hz", "", "f", |m, x| m::organ_hz(x[0])), plain!("soft_saw_hz", "", "f", |m, x| m::soft_saw_hz(x[0])), plain!("hammond_hz", "", "f", |m, x| m::hammond_hz(x[0])),
        plain!("wavech", "", "u", |m, x| m::wavech(wave(), (x[0] > 0.5) as usize, if x[0] > 0.3 { Some(20) } else { None })),
        plain!("wavech_at", "", "uu", |m, x| m::wavech_at(wave(), (x[0] > 0.5) as usize, (x[1] * 20.0) as usize, 30 + (x[0] * 60.0) as usize, if x[1] > 0.3 { Some(20) } else { None })),
        plain!("chorus", "a", "ddu", |m, x| m::chorus(1 + (x[2] * 9.0) as u64, 0.015 + x[0], x[1], x[2])),
        plain!("flanger", "a", "u", |m, x| m::flanger(x[0], 0.005, 0.010, |t| 0.0075 + 0.0025 * (t * 3.0).sin())),
        plain!("phaser", "a", "u", |m, x| m::phaser(x[0], |t| 0.5 + 0.5 * (t * 3.0).sin())),
        plain!("impulse", "", "", |m, _x| m::impulse::<U2>()), plain!("rotate", "aa", "fb", |m, x| m::rotate(x[0] * 0.01, x[1])),
        plain!("unit", "a", "b", |m, x| m::unit::<U1, U1>(Box::new(m::mul(x[0])))),
        plain!("resynth", "a", "b", |m, x| { let a = x[0]; m::resynth::<U1, U1, _>(32, move |w| for i in 0..w.bins() { let y = w.at(0, i) * a; w.set(0, i, y); }) }),
        plain!("update", "a", "u", |m, x| m::update(m::mul(x[0]), 0.01, |t, _dt, x| x.set_left(t))),
        plain!("var", "", "b", |m, x| m::var(&m::shared(x[0]))), plain!("var_fn", "", "b", |m, x| m::var_fn(&m::shared(x[0]), |y| (y, y * y))),
        plain!("monitor", "a", "", |m, _x| m::monitor(&m::shared(0.0), m::Meter::Peak(0.9))), plain!("meter", "a", "u", |m, x| m::meter(m::Meter::Rms((x[0]).into()))), plain!("timer", "a", "", |m, _x| m::timer(&m::shared(0.0)) | m::pass()),
        plain!("snoop", "a", "", |m, _x| m::snoop(64).1),
    ])
}

/// Something for `update` to modify that is observable through the graph.
trait SetLeft { fn set_left(&mut self, t: f32); }
impl<X: AudioNode> SetLeft for X { fn set_left(&mut self, t: f32) { self.set(fundsp::hacker::Setting::value(t).left()); } }

fn dels(x: f32) -> [f32; 32] {
    core::array::from_fn(|i| 0.03 + 0.04 * ((i as f32 * 0.618 + x).fract()))
}

fn gen_params(src: &mut Src, spec: &str) -> Vec<f32> {
    spec.chars().map(|k| match k {
        'f' => src.logf32(80.0, 4000.0),
        'q' => src.f32(0.5, 4.0),
        'g' => src.f32(0.25, 3.0),
        'u' => src.f32(0.05, 0.95),
        'd' => src.f32(0.001, 0.011),
        _ => src.f32(-1.0, 1.0),
    }).collect()
}

fn preludes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = src.pick(ops());
    let x = gen_params(src, o.params);
    let n = src.size(1, 300);
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let input = gen_in(src, o.kinds, n);
    let steps = gen_steps(src, n);
    ctx.note(format!("{}{:?} at {} {}", o.name, x, sr, describe_steps(&steps)));
    let default_rate = src.chance(1, 4);
    let mut out = vec![];
    for w in 0..4 {
        let mut u = (o.make)(&x, w);
        ensure!(u.inputs() == input.len(), format!("{} arity", o.name), "{} form {} has {} inputs, expected {}", o.name, w, u.inputs(), input.len());
        if !default_rate { u.set_sample_rate(sr); }
        out.push(render(&mut *u, &input, 0, &steps));
    }
    let names = ["hacker", "hacker32", "prelude f64", "prelude f32"];
    for (a, b) in [(0, 2), (1, 3)] {
        ensure!(out[a].len() == out[b].len(), format!("{} arity", o.name), "{}: {} and {} have a different number of outputs", o.name, names[a], names[b]);
        if let Some(d) = diff(&out[b], &out[a], 0.0) {
            return fail(format!("{} {}", o.name, names[a]), format!("{}{:?}: {} differs from {}: {:?} (rate {}, {})", o.name, x, names[a], names[b], d, sr, describe_steps(&steps)));
        }
    }
    if o.tol >= 0.0 {
        let t = o.tol * (1.0 + peak(&out[0]));
        if let Some(d) = diff(&out[0], &out[1], t) {
            return fail(format!("{} precision", o.name), format!("{}{:?}: 32-bit form differs from 64-bit form: {:?} (rate {})", o.name, x, d, sr));
        }
    }
    if out[0].iter().any(|c| c.iter().any(|y| *y != 0.0)) { ctx.nontrivial(); }
    Ok(())
}

struct Short { name: &'static str, kinds: &'static str, params: &'static str, make: fn(&[f32]) -> (Un, Un), tol: f64 }
macro_rules! sh { ($n:expr, $k:expr, $p:expr, $tol:expr, |$x:ident| $a:expr, $b:expr) => { Short { name: $n, kinds: $k, params: $p, tol: $tol, make: |$x| (bx!($a), bx!($b)) } } }

/// Shorthands and what the documentation says they are.
fn shorts() -> &'static [Short] {
    static O: OnceLock<Vec<Short>> = OnceLock::new();
    O.get_or_init(|| vec![
        sh!("add", "aa", "bb", 1e-6, |x| h::add((x[0], x[1])), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U2>| (i[0] + a, i[1] + b) })),
        sh!("sub", "aa", "bb", 1e-6, |x| h::sub((x[0], x[1])), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U2>| (i[0] - a, i[1] - b) })),
        sh!("mul", "aa", "bb", 1e-6, |x| h::mul((x[0], x[1])), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U2>| (i[0] * a, i[1] * b) })),
        sh!("sine_hz", "", "f", 0.0, |x| h::sine_hz(x[0]), h::constant(x[0]) >> h::sine()),
        sh!("ramp_hz", "", "f", 0.0, |x| h::ramp_hz(x[0]), h::constant(x[0]) >> h::ramp()),
        sh!("saw_hz", "", "f", 0.0, |x| h::saw_hz(x[0]), h::constant(x[0]) >> h::saw()),
        sh!("square_hz", "", "f", 0.0, |x| h::square_hz(x[0]), h::constant(x[0]) >> h::square()),
        sh!("triangle_hz", "", "f", 0.0, |x| h::triangle_hz(x[0]), h::constant(x[0]) >> h::triangle()),
        sh!("organ_hz", "", "f", 0.0, |x| h::organ_hz(x[0]), h::constant(x[0]) >> h::organ()),
        sh!("soft_saw_hz", "", "f", 0.0, |x| h::soft_saw_hz(x[0]), h::constant(x[0]) >> h::soft_saw()),
        sh!("hammond_hz", "", "f", 0.0, |x| h::hammond_hz(x[0]), h::constant(x[0]) >> h::hammond()),
        sh!("poly_saw_hz", "", "f", 0.0, |x| h::poly_saw_hz(x[0]), h::constant(x[0]) >> h::poly_saw()),
        sh!("poly_square_hz", "", "f", 0.0, |x| h::poly_square_hz(x[0]), h::constant(x[0]) >> h::poly_square()),
        sh!("poly_pulse_hz", "", "fu", 0.0, |x| h::poly_pulse_hz(x[0], x[1]), h::constant((x[0], x[1])) >> h::poly_pulse()),
        sh!("moog_q", "af", "u", 1e-5, |x| h::moog_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::moog()),
        sh!("lowpass_q", "af", "q", 1e-5, |x| h::lowpass_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::lowpass()),
        sh!("highpass_q", "af", "q", 1e-5, |x| h::highpass_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::highpass()),
        sh!("bandpass_q", "af", "q", 1e-5, |x| h::bandpass_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::bandpass()),
        sh!("notch_q", "af", "q", 1e-5, |x| h::notch_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::notch()),
        sh!("peak_q", "af", "q", 1e-5, |x| h::peak_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::peak()),
        sh!("allpass_q", "af", "q", 1e-5, |x| h::allpass_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::allpass()),
        sh!("bell_q", "af", "qg", 1e-5, |x| h::bell_q(x[0], x[1]), (h::multipass::<U2>() | h::dc((x[0], x[1]))) >> h::bell()),
        sh!("lowshelf_q", "af", "qg", 1e-5, |x| h::lowshelf_q(x[0], x[1]), (h::multipass::<U2>() | h::dc((x[0], x[1]))) >> h::lowshelf()),
        sh!("highshelf_q", "af", "qg", 1e-5, |x| h::highshelf_q(x[0], x[1]), (h::multipass::<U2>() | h::dc((x[0], x[1]))) >> h::highshelf()),
        sh!("lowrez_q", "af", "u", 1e-5, |x| h::lowrez_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::lowrez()),
        sh!("bandrez_q", "af", "u", 1e-5, |x| h::bandrez_q(x[0]), (h::multipass::<U2>() | h::dc(x[0])) >> h::bandrez()),
        sh!("morph_hz", "a", "fqb", 1e-5, |x| h::morph_hz(x[0], x[1], x[2]), (h::pass() | h::dc((x[0], x[1], x[2]))) >> h::morph()),
        sh!("pan", "a", "b", 1e-6, |x| h::pan(x[0]), (h::pass() | h::dc(x[0])) >> h::panner()),
        sh!("pink", "", "", 0.0, |_x| h::pink(), h::white() >> h::pinkpass()),
        sh!("clip", "a", "", 0.0, |_x| h::mul(3.0) >> h::clip(), h::mul(3.0) >> h::clip_to(-1.0, 1.0)),
        sh!("dsf_saw_r", "f", "u", 1e-4, |x| h::dsf_saw_r(x[0]).phase(0.25), (h::pass() | h::dc(x[0])) >> h::dsf_saw().phase(0.25)),
        sh!("mls", "", "", 0.0, |_x| h::mls(), h::mls_bits(29)),
        sh!("hold_hz", "a", "f", 0.0, |x| h::hold_hz(x[0], 0.0), (h::pass() | h::dc(x[0])) >> h::hold(0.0)),
        sh!("declick", "a", "", 1e-6, |_x| h::declick(), h::declick_s(0.010)),
        sh!("dcblock", "a", "", 1e-6, |_x| h::dcblock(), h::dcblock_hz(10.0)),
        sh!("fir3", "a", "u", 1e-6, |x| h::fir3(x[0]), h::fir(((1.0 - x[0]) / 4.0, (1.0 + x[0]) / 2.0, (1.0 - x[0]) / 4.0))),
        sh!("rotate", "aa", "fb", 1e-6, |x| h::rotate(x[0] * 0.01, x[1]), h::map({ let (s, c, g) = ((x[0] * 0.01).sin(), (x[0] * 0.01).cos(), x[1]); move |i: &Frame<f32, U2>| ((c * i[0] - s * i[1]) * g, (s * i[0] + c * i[1]) * g) })),
        sh!("multitap_linear1", "ad", "", 1e-6, |_x| h::multitap_linear::<U1>(0.002, 0.009), h::tap_linear(0.002, 0.009)),
        sh!("multitap1", "ad", "", 1e-6, |_x| h::multitap::<U1>(0.002, 0.009), h::tap(0.002, 0.009)),
        sh!("busi", "a", "bb", 1e-5, |x| h::busi::<U3, _, _>({ let (a, b) = (x[0], x[1]); move |i| h::mul(a + b * i as f32) >> h::tick() }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U1>| i[0] * (3.0 * a + 3.0 * b) }) >> h::tick()),
        sh!("busf", "a", "bb", 1e-5, |x| h::busf::<U5, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) >> h::tick() }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U1>| i[0] * (5.0 * a + 2.5 * b) }) >> h::tick()),
        sh!("stackf", "aaaa", "bb", 1e-5, |x| h::stackf::<U4, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U4>| (i[0] * a, i[1] * (a + b / 3.0), i[2] * (a + b * 2.0 / 3.0), i[3] * (a + b)) })),
        sh!("branchf", "a", "bb", 1e-5, |x| h::branchf::<U3, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U1>| (i[0] * a, i[0] * (a + b / 2.0), i[0] * (a + b)) })),
        sh!("sumf", "aaa", "bb", 1e-5, |x| h::sumf::<U3, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U3>| i[0] * a + i[1] * (a + b / 2.0) + i[2] * (a + b) })),
        sh!("pipef", "a", "bb", 1e-5, |x| h::pipef::<U3, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }), h::map({ let (a, b) = (x[0], x[1]); move |i: &Frame<f32, U1>| i[0] * a * (a + b / 2.0) * (a + b) })),
        // A single branch sits at one half.
        sh!("single", "a", "bb", 1e-5, |x| h::busf::<U1, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }) & h::branchf::<U1, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }) & h::pipef::<U1, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }) & h::sumf::<U1, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }) & h::stackf::<U1, _, _>({ let (a, b) = (x[0], x[1]); move |t: f32| h::mul(a + b * t) }), h::mul(5.0 * (x[0] + x[1] * 0.5))),
        sh!("product", "aa", "b", 1e-6, |x| h::product(h::tick(), h::mul(x[0])), h::tick() * h::mul(x[0])),
        sh!("sum", "aa", "b", 1e-6, |x| h::sum(h::tick(), h::mul(x[0])), h::tick() + h::mul(x[0])),
        sh!("pipe", "a", "b", 1e-6, |x| h::pipe(h::tick(), h::mul(x[0])), h::tick() >> h::mul(x[0])),
        sh!("bus", "a", "b", 1e-6, |x| h::bus(h::tick(), h::mul(x[0])), h::tick() & h::mul(x[0])),
        sh!("stack", "aa", "b", 1e-6, |x| h::stack(h::tick(), h::mul(x[0])), h::tick() | h::mul(x[0])),
        sh!("branch", "a", "b", 1e-6, |x| h::branch(h::tick(), h::mul(x[0])), h::tick() ^ h::mul(x[0])),
        sh!("thru", "aa", "b", 1e-6, |x| h::thru(h::mul((x[0], 1.0)) >> h::join::<U2>()), !(h::mul((x[0], 1.0)) >> h::join::<U2>())),
        sh!("multitick", "aa", "", 0.0, |_x| h::multitick::<U2>(), h::tick() | h::tick()),
        sh!("tick", "a", "", 0.0, |_x| h::tick(), h::fir((1.0, 0.0))),
    ])
}


fn shorthands(src: &mut Src, ctx: &mut Ctx) -> Res {
    let o = src.pick(shorts());
    let x = gen_params(src, o.params);
    let n = src.size(1, 300);
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let input = gen_in(src, o.kinds, n);
    let steps = gen_steps(src, n);
    ctx.note(format!("{}{:?} at {} {}", o.name, x, sr, describe_steps(&steps)));
    let (mut a, mut b) = (o.make)(&x);
    // Both are wrapped, as the initial phase depends on the position in the graph.
    if src.bool() { a = Box::new(Net::wrap(a)); b = Box::new(Net::wrap(b)); }
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    let a = render(&mut *a, &input, 0, &steps);
    let b = render(&mut *b, &input, 0, &steps);
    ensure!(a.len() == b.len(), format!("{} arity", o.name), "{} has {} outputs, its long form {}", o.name, a.len(), b.len());
    if let Some(d) = diff(&b, &a, o.tol * (1.0 + peak(&b))) {
        return fail(format!("{} shorthand", o.name), format!("{}{:?} differs from its long form: {:?} (rate {}, {})", o.name, x, d, sr, describe_steps(&steps)));
    }
    if b.iter().any(|c| c.iter().any(|y| *y != 0.0)) { ctx.nontrivial(); }
    Ok(())
}

/// Tuples of two to ten numbers: component `i` is channel (or tap) `i` wherever an opcode takes or returns one.
fn tuples(src: &mut Src, ctx: &mut Ctx) -> Res {
    let size = src.size(1, 10);
    let v: Vec<f32> = (0..10).map(|_| (src.below(4001) as f32 - 2000.0) / 128.0).collect();
    let n = src.size(1, 40);
    let kind = src.below(7);
    let which = src.below(3);
    let seed = src.seed();
    let steps = gen_steps(src, n);
    let name = ["dc", "constant", "add", "sub", "mul", "map", "lfo"][kind as usize];
    ctx.note(format!("{name} of {:?} in prelude {which}, {}", &v[..size], describe_steps(&steps)));
    macro_rules! t {
        ($t:ty; $($i:tt)+) => { ($(v[$i] as $t,)+) };
    }
    macro_rules! all {
        ($m:ident, $a:ident; $x:expr, $xl:expr) => { match kind {
            0 => Box::new($m::dc($x)) as Un,
            1 => Box::new($m::constant($x)),
            2 => Box::new($m::add($x)),
            3 => Box::new($m::sub($x)),
            4 => Box::new($m::mul($x)),
            5 => { let x = $x; Box::new($m::map(move |_: &Frame<f32, U1>| x)) }
            _ => { let x = $xl; Box::new($a(move |_| x)) }
        } };
    }
    fn lf<R: h::ConstantFrame<Sample = f64>>(f: impl Fn(f64) -> R + Clone + Send + Sync + 'static) -> impl AudioUnit where R::Size: h::Size<f64> + h::Size<f32>, R: 'static { h::lfo(f) }
    fn lg<R: h::ConstantFrame<Sample = f32>>(f: impl Fn(f32) -> R + Clone + Send + Sync + 'static) -> impl AudioUnit where R::Size: h::Size<f32>, R: 'static { g::lfo(f) }
    fn lp<R: h::ConstantFrame<Sample = f32>>(f: impl Fn(f32) -> R + Clone + Send + Sync + 'static) -> impl AudioUnit where R::Size: h::Size<f32>, R: 'static { p::lfo(f) }
    macro_rules! pre { ($($i:tt)+) => { match which {
        0 => all!(h, lf; t!(f32; $($i)+), t!(f64; $($i)+)),
        1 => all!(g, lg; t!(f32; $($i)+), t!(f32; $($i)+)),
        _ => all!(p, lp; t!(f32; $($i)+), t!(f32; $($i)+)),
    } } }
    let mut u: Un = match size {
        1 => match which { 0 => all!(h, lf; v[0], v[0] as f64), 1 => all!(g, lg; v[0], v[0]), _ => all!(p, lp; v[0], v[0]) },
        2 => pre!(0 1),
        3 => pre!(0 1 2),
        4 => pre!(0 1 2 3),
        5 => pre!(0 1 2 3 4),
        6 => pre!(0 1 2 3 4 5),
        7 => pre!(0 1 2 3 4 5 6),
        8 => pre!(0 1 2 3 4 5 6 7),
        9 => pre!(0 1 2 3 4 5 6 7 8),
        _ => pre!(0 1 2 3 4 5 6 7 8 9),
    };
    let ins = match kind { 2..=4 => size, 5 => 1, _ => 0 };
    ensure!(u.inputs() == ins && u.outputs() == size, "tuple-arity", "{name} of {size} numbers has arity {}:{}", u.inputs(), u.outputs());
    let x: Sig = (0..ins).map(|c| (0..n).map(|i| (vfcore::render::rnd11(seed ^ c as u64, i as u64) * 256.0).round() / 64.0).collect()).collect();
    let y = render(&mut *u, &x, 0, &steps);
    for c in 0..size { for i in 0..n {
        let w = match kind { 2 => x[c][i] + v[c], 3 => x[c][i] - v[c], 4 => x[c][i] * v[c], _ => v[c] };
        // Constant envelopes are interpolated between equal values.
        let tol = if kind == 6 { 1.0e-5 * w.abs() } else { 0.0 };
        ensure!((y[c][i] - w).abs() <= tol, "tuple", "channel {c} sample {i} of {name} is {} instead of {w}", y[c][i]);
    } }
    // As weights of a filter.
    macro_rules! fir { ($($i:tt)+) => { match which { 0 => Box::new(h::fir(t!(f32; $($i)+))) as Un, 1 => Box::new(g::fir(t!(f32; $($i)+))), _ => Box::new(p::fir(t!(f32; $($i)+))) } } }
    let mut f: Un = match size {
        1 => return Ok(()),
        2 => fir!(0 1),
        3 => fir!(0 1 2),
        4 => fir!(0 1 2 3),
        5 => fir!(0 1 2 3 4),
        6 => fir!(0 1 2 3 4 5),
        7 => fir!(0 1 2 3 4 5 6),
        8 => fir!(0 1 2 3 4 5 6 7),
        9 => fir!(0 1 2 3 4 5 6 7 8),
        _ => fir!(0 1 2 3 4 5 6 7 8 9),
    };
    let mut imp = vec![0.0f32; 12];
    imp[0] = 1.0;
    let y = render(&mut *f, &vec![imp], 0, &gen_steps(src, 12));
    for i in 0..12 {
        // The last weight is that of the latest sample.
        let w = if i < size { v[size - 1 - i] } else { 0.0 };
        ensure!(y[0][i] == w, "tuple-fir", "response {i} of fir({:?}) is {}", &v[..size], y[0][i]);
    }
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C33",
        rule: "a case is an opcode, its parameters, a sample rate, an input signal and a partition into blocks; non-trivial when the output is not silent",
        assumptions: &["32-bit and 64-bit filters agree within a tolerance of 0.1 to 5 percent of the peak over 300 samples; oscillators with jumps and distorted biquads are not compared across precisions"],
        subs: vec![
            Sub { name: "preludes", quick: 300000, thorough: 3000000, f: preludes },
            Sub { name: "shorthands", quick: 300000, thorough: 3000000, f: shorthands },
            Sub { name: "tuples", quick: 50000, thorough: 500000, f: tuples },
        ],
    });
}
