//! C20: waveshapers follow their transfer curves and stay in bounds.
use fundsp::hacker as h;
use fundsp::hacker::{Adaptive, Atan, AudioUnit, Clip, ClipTo, Crush, F32x, Shape, ShapeFn, SoftCrush, Softsign, Tanh};
use vfcore::render::{describe_steps, gen_steps, render};
use vfcore::*;

#[derive(Clone, Copy, Debug)]
enum S { Clip(f32), ClipTo(f32, f32), Tanh(f32), Atan(f32), Softsign(f32), Crush(f32), SoftCrush(f32), Fn(f32) }

fn smooth9(x: f64) -> f64 { ((((70.0 * x - 315.0) * x + 540.0) * x - 420.0) * x + 126.0) * x.powi(5) }

impl S {
    fn gen(src: &mut Src) -> S {
        let k = src.below(8);
        let hard = match src.below(4) { 0 => 1.0, 1 => src.logf32(0.001, 1000.0), 2 => src.logf32(0.1, 20.0), _ => (src.size(1, 64)) as f32 };
        let signed = if src.chance(1, 8) { -hard } else { hard };
        match k {
            0 => S::Clip(signed),
            1 => { let a = src.f32(-2.0, 2.0); let b = src.f32(-2.0, 2.0); S::ClipTo(a.min(b), a.max(b)) }
            2 => S::Tanh(signed),
            3 => S::Atan(signed),
            4 => S::Softsign(signed),
            5 => S::Crush(hard),
            6 => S::SoftCrush(hard),
            _ => S::Fn(hard),
        }
    }
    fn node(&self, convenience: bool) -> Box<dyn AudioUnit> {
        match *self {
            S::Clip(a) if a == 1.0 && convenience => Box::new(h::clip()),
            S::Clip(a) => Box::new(h::shape(Clip(a))),
            S::ClipTo(a, b) if convenience => Box::new(h::clip_to(a, b)),
            S::ClipTo(a, b) => Box::new(h::shape(ClipTo(a, b))),
            S::Tanh(a) => Box::new(h::shape(Tanh(a))),
            S::Atan(a) => Box::new(h::shape(Atan(a))),
            S::Softsign(a) => Box::new(h::shape(Softsign(a))),
            S::Crush(a) => Box::new(h::shape(Crush(a))),
            S::SoftCrush(a) => Box::new(h::shape(SoftCrush(a))),
            S::Fn(a) => if convenience { Box::new(h::shape_fn(move |x: f32| x * x - a)) } else { Box::new(h::shape(ShapeFn(move |x: f32| x * x - a))) },
        }
    }
    fn direct(&self, x: F32x) -> (F32x, [f32; 8]) {
        fn both<T: Shape>(s: T, x: F32x) -> (F32x, [f32; 8]) { let mut t = s.clone(); let mut u = s; (t.simd(x), core::array::from_fn(|i| u.shape(x.as_array_ref()[i]))) }
        match *self {
            S::Clip(a) => both(Clip(a), x),
            S::ClipTo(a, b) => both(ClipTo(a, b), x),
            S::Tanh(a) => both(Tanh(a), x),
            S::Atan(a) => both(Atan(a), x),
            S::Softsign(a) => both(Softsign(a), x),
            S::Crush(a) => both(Crush(a), x),
            S::SoftCrush(a) => both(SoftCrush(a), x),
            S::Fn(a) => both(ShapeFn(move |x: f32| x * x - a), x),
        }
    }
    /// Reference value and tolerance.
    fn want(&self, x: f64) -> (f64, f64) {
        let e = f32::EPSILON as f64;
        match *self {
            S::Clip(a) => { let y = (x * a as f64).clamp(-1.0, 1.0); (y, e * y.abs()) }
            S::ClipTo(a, b) => (x.clamp(a as f64, b as f64), 0.0),
            S::Tanh(a) => { let y = (x * a as f64).tanh(); (y, 1.0e-6 * y.abs()) }
            S::Atan(a) => { let y = (x * a as f64 * std::f64::consts::FRAC_PI_2).atan() * std::f64::consts::FRAC_2_PI; (y, 2.0e-6 * y.abs()) }
            S::Softsign(a) => { let z = x * a as f64; let y = z / (1.0 + z.abs()); (y, 1.0e-6 * y.abs()) }
            // Nearest level: the distance is at most half a step; see `levels`.
            S::Crush(a) => (x, 0.5 / a as f64 + 2.0 * e * x.abs()),
            S::SoftCrush(a) => { let z = x * a as f64; let f = z.floor(); ((f + smooth9(z - f)) / a as f64, (6.0 * e * (z.abs() + 1.0) + 6.0e-5) / a as f64) }
            S::Fn(a) => { let y = x * x - a as f64; (y, e * (x * x + a as f64)) }
        }
    }
    fn bound(&self) -> Option<(f32, f32)> {
        match *self {
            S::Clip(_) | S::Tanh(_) | S::Softsign(_) | S::Atan(_) => Some((-1.0, 1.0)),
            S::ClipTo(a, b) => Some((a, b)),
            _ => None,
        }
    }
    fn odd(&self) -> bool { !matches!(self, S::ClipTo(..) | S::Fn(_) | S::SoftCrush(_)) }
    /// Sign of monotonicity.
    fn rising(&self) -> Option<f32> {
        match *self {
            S::Clip(a) | S::Tanh(a) | S::Atan(a) | S::Softsign(a) => Some(a.signum()),
            S::ClipTo(..) | S::Crush(_) | S::SoftCrush(_) => Some(1.0),
            S::Fn(_) => None,
        }
    }
    fn hardness(&self) -> f32 { match *self { S::Clip(a) | S::Tanh(a) | S::Atan(a) | S::Softsign(a) | S::Crush(a) | S::SoftCrush(a) | S::Fn(a) => a.abs(), _ => 1.0 } }
}

fn value(src: &mut Src, hard: f32, limit: f32) -> f32 {
    let x = match src.below(8) {
        0 => 0.0,
        1 => src.f32(-1.0, 1.0),
        2 => src.f32(-8.0, 8.0),
        3 => src.logf32(1.0e-30, 1.0e30) * if src.bool() { 1.0 } else { -1.0 },
        // Steps and halfway points of the staircases, and their neighbours.
        4 => { let k = src.int(-40, 40) as f32 * 0.5 / hard; let d = src.int(-2, 2); f32::from_bits((k.to_bits() as i64 + d) as u32) }
        5 => src.f32(-4.0, 4.0) / hard,
        6 => *src.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, -0.5, -0.0, 1.0e-40, f32::MIN_POSITIVE, 16777216.0, 8388609.0]),
        _ => src.logf32(1.0e-6, 1.0e6) * if src.bool() { 1.0 } else { -1.0 },
    };
    if x.is_nan() || x.abs() > limit { 0.25 } else { x }
}

fn curve(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = S::gen(src);
    let n = src.size(1, 200);
    let limit = match s { S::Crush(_) | S::SoftCrush(_) => 1.0e6 / s.hardness(), S::Fn(_) => 1.0e15, _ => 1.0e30 };
    let x: Vec<f32> = (0..n).map(|_| value(src, s.hardness(), limit)).collect();
    let steps = gen_steps(src, n);
    let mut u = s.node(src.bool());
    let sr = *src.pick(&[44100.0, 8000.0, 192000.0]);
    if src.bool() { u.set_sample_rate(sr); }
    ctx.note(format!("{:?} {} samples {}", s, n, describe_steps(&steps)));
    ctx.nontrivial();
    ensure!(u.inputs() == 1 && u.outputs() == 1, "arity", "{:?} has {} inputs and {} outputs", s, u.inputs(), u.outputs());
    let y = render(&mut *u, &vec![x.clone()], 0, &steps).remove(0);
    let name = format!("{:?}", s).split('(').next().unwrap().to_string();
    for i in 0..n {
        let (w, tol) = s.want(x[i] as f64);
        ensure!((y[i] as f64 - w).abs() <= tol + 1.0e-37, format!("{} curve", name), "{:?} at {:e}: {:e}, the curve gives {:e} (sample {} of {})", s, x[i], y[i], w, i, describe_steps(&steps));
        if let Some((a, b)) = s.bound() { ensure!(within(y[i], a, b), format!("{} bound", name), "{:?} at {:e}: {:e}", s, x[i], y[i]); }
        if let S::Crush(a) = s { let l = y[i] as f64 * a as f64; ensure!((l - l.round()).abs() <= 1.0e-6 * (1.0 + l.abs()), format!("{} levels", name), "{:?} at {:e}: {:e} is not a level", s, x[i], y[i]); }
    }
    // The scalar and vector forms of the shape itself.
    let v = F32x::new(core::array::from_fn(|i| x[i % n]));
    let (a, b) = s.direct(v);
    let (m, mb) = s.direct(-v);
    for i in 0..8 {
        let (xi, ya, yb) = (x[i % n], a.as_array_ref()[i], b[i]);
        let (w, tol) = s.want(xi as f64);
        for (form, yi) in [("vector", ya), ("scalar", yb)] { ensure!((yi as f64 - w).abs() <= tol + 1.0e-37, format!("{} {} form", name, form), "{:?} at {:e}: {:e}, the curve gives {:e}", s, xi, yi, w); }
        if s.odd() {
            for (form, p, q) in [("vector", ya, m.as_array_ref()[i]), ("scalar", yb, mb[i])] { ensure!((p + q).abs() <= 3.0e-7 * p.abs() + 1.0e-37, format!("{} odd", name), "{:?} {} form at ±{:e}: {:e} and {:e}", s, form, xi, p, q); }
        }
    }
    // Monotonicity over the sorted values.
    if let Some(sign) = s.rising() {
        let mut o: Vec<usize> = (0..n).collect();
        o.sort_by(|a, b| x[*a].partial_cmp(&x[*b]).unwrap());
        for w in o.windows(2) {
            let d = sign * (y[w[1]] - y[w[0]]);
            let tol = match s { S::SoftCrush(a) => 12.0 * f32::EPSILON * x[w[0]].abs() + 1.2e-4 / a, S::Atan(_) | S::Softsign(_) | S::Tanh(_) => 5.0e-7 * y[w[0]].abs(), _ => 2.0 * f32::EPSILON * y[w[0]].abs() } + 1.0e-37;
            ensure!(d >= -tol, format!("{} monotone", name), "{:?}: {:e} -> {:e} but {:e} -> {:e}", s, x[w[0]], y[w[0]], x[w[1]], y[w[1]]);
        }
    }
    Ok(())
}

/// Bounds hold up to the rounding of a final multiplication.
fn within(y: f32, a: f32, b: f32) -> bool { y >= a - 2.4e-7 * a.abs() && y <= b + 2.4e-7 * b.abs() }

/// The staircases reproduce their levels, and the smooth staircase meets it at the levels.
fn levels(src: &mut Src, ctx: &mut Ctx) -> Res {
    // Powers of two keep the arithmetic exact.
    let l = (1u32 << src.size(0, 8)) as f32;
    let k = src.int(-2000, 2000) as f32;
    let x = k / l;
    ctx.note(format!("level {} of {}", k, l));
    if k != 0.0 { ctx.nontrivial(); }
    for (name, mut u) in [("crush", Box::new(h::shape(Crush(l))) as Box<dyn AudioUnit>), ("softcrush", Box::new(h::shape(SoftCrush(l))))] {
        let n = src.size(1, 20);
        let y = render(&mut *u, &vec![vec![x; n]], 0, &gen_steps(src, n)).remove(0);
        for i in 0..n { ensure!(y[i] == x, format!("{} level", name), "{} of {} levels moves the level {} to {} (sample {} of {})", name, l, x, y[i], i, n); }
    }
    Ok(())
}

fn adaptive(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = loop { let s = S::gen(src); if !matches!(s, S::Crush(_) | S::SoftCrush(_) | S::Fn(_)) { break s; } if src.below(2) == 0 { break S::Tanh(1.0); } };
    let t = src.logf32(0.0005, 0.2);
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let mut u: Box<dyn AudioUnit> = match s {
        S::Clip(a) => Box::new(h::shape(Adaptive::new(t, Clip(a)))),
        S::ClipTo(a, b) => Box::new(h::shape(Adaptive::new(t, ClipTo(a, b)))),
        S::Atan(a) => Box::new(h::shape(Adaptive::new(t, Atan(a)))),
        S::Softsign(a) => Box::new(h::shape(Adaptive::new(t, Softsign(a)))),
        S::Tanh(a) => Box::new(h::shape(Adaptive::new(t, Tanh(a)))),
        _ => unreachable!(),
    };
    u.set_sample_rate(sr);
    if src.bool() {
        // Whatever was played before is forgotten by a reset.
        let n = src.size(1, 200);
        let x: Vec<f32> = (0..n).map(|_| value(src, 1.0, 1.0e6)).collect();
        render(&mut *u, &vec![x], 0, &gen_steps(src, n));
        u.reset();
    }
    let n = src.size(1, 600);
    let wild = src.chance(1, 4);
    let amp = src.logf(1.0e-5, 1000.0);
    let seed = src.seed();
    let x: Vec<f32> = if wild { (0..n).map(|_| value(src, 1.0, f32::MAX)).collect() } else { (0..n).map(|i| (amp * render::rnd11(seed, i as u64) as f64 * if (i / 100) % 2 == 1 { 0.1 } else { 1.0 }) as f32).collect() };
    let steps = gen_steps(src, n);
    ctx.note(format!("adaptive {:?} timescale {} rate {} {} {}", s, t, sr, if wild { "wild" } else { "noise" }, describe_steps(&steps)));
    ctx.nontrivial();
    let y = render(&mut *u, &vec![x.clone()], 0, &steps).remove(0);
    let (a, b) = s.bound().unwrap();
    // Per sample, the level moves towards the new one so that half the way is covered in the timescale.
    let k = 0.5f64.powf(1.0 / (t as f64 * sr));
    let mut level = 1.0e-3f64;
    let rel = 0.5 * 4.0e-7 / (1.0 - k) + 1.0e-5;
    for i in 0..n {
        ensure!(y[i].is_finite(), "adaptive finite", "{:?} gives {} for {:e} (sample {})", s, y[i], x[i], i);
        ensure!(within(y[i], a, b), "adaptive bound", "{:?} gives {:e} for {:e} (sample {})", s, y[i], x[i], i);
        if !wild {
            level = k * level + (1.0 - k) * (1.0e-6 + (x[i] as f64).powi(2));
            let z = x[i] as f64 / level.sqrt();
            let (w, _) = s.want(z);
            let (lo, _) = s.want(z * (1.0 - rel));
            let (hi, _) = s.want(z * (1.0 + rel));
            let tol = (w - lo).abs().max((w - hi).abs()) + 3.0e-6 * w.abs() + 1.0e-7;
            ensure!((y[i] as f64 - w).abs() <= tol, "adaptive curve", "{:?} timescale {} rate {}: sample {} is {:e}, expected {:e} (input {:e}, level {:e}) {}", s, t, sr, i, y[i], w, x[i], level.sqrt(), describe_steps(&steps));
        }
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C20",
        rule: "curve: a random shape and hardness on values spread over all magnitudes, steps of staircases and their neighbours, in a random schedule of ticks and blocks, against the curve in double precision; levels: exact staircase levels; adaptive: noise against the level recurrence, and wild values for boundedness. Non-trivial when something was rendered (curve, adaptive) or the level is not zero",
        assumptions: &["finite inputs whose scaled value stays below 1e33", "bounded shapes inside the adaptive shape"],
        subs: vec![
            Sub { name: "curve", quick: 600000, thorough: 20000000, f: curve },
            Sub { name: "levels", quick: 200000, thorough: 2000000, f: levels },
            Sub { name: "adaptive", quick: 200000, thorough: 5000000, f: adaptive },
        ],
    })
}
