//! C21: mathematical helpers satisfy their documented laws.
use fundsp::hacker as h;
use fundsp::hacker::{AttoHash, F32x, Float, Num, Real};
use fundsp::wide::f64x4;
use vfcore::*;

trait Ty: Real { const EPS: f64; const NAME: &'static str; }
impl Ty for f32 { const EPS: f64 = f32::EPSILON as f64; const NAME: &'static str = "f32"; }
impl Ty for f64 { const EPS: f64 = f64::EPSILON; const NAME: &'static str = "f64"; }
fn t<T: Ty>(x: f64) -> T { T::from_f64(x) }

macro_rules! near {
    ($name:expr, $T:ty, $got:expr, $want:expr, $tol:expr, $($arg:expr),*) => {{
        let (g, w, tol) = (Float::to_f64($got), $want as f64, $tol as f64);
        ensure!((g - w).abs() <= tol, format!("{}", $name), "{}::<{}>({}) is {:e}, expected {:e} within {:e}", $name, <$T>::NAME, [$(format!("{:e}", Float::to_f64($arg))),*].join(", "), g, w, tol);
    }};
}

fn val(src: &mut Src) -> f64 {
    match src.below(6) {
        0 => src.f64(-1.0, 1.0),
        1 => src.f64(-100.0, 100.0),
        2 => src.int(-40, 40) as f64,
        3 => src.int(-40, 40) as f64 * 0.5,
        4 => src.logf(1.0e-6, 1.0e6) * if src.bool() { 1.0 } else { -1.0 },
        _ => *src.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]),
    }
}
fn unit01(src: &mut Src) -> f64 { match src.below(5) { 0 => 0.0, 1 => 1.0, 2 => src.logf(1.0e-7, 1.0), 3 => 1.0 - src.logf(1.0e-7, 1.0), _ => src.u01() } }

fn interpolation<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let (a, b) = (t::<T>(val(src)), t::<T>(val(src)));
    let x = t::<T>(unit01(src));
    let (af, bf, xf) = (a.to_f64(), b.to_f64(), x.to_f64());
    let scale = af.abs() + bf.abs();
    near!("lerp", T, h::lerp(a, b, x), af + (bf - af) * xf, 4.0 * e * scale, a, b, x);
    near!("lerp at 0", T, h::lerp(a, b, T::zero()), af, 0.0, a, b);
    near!("lerp at 1", T, h::lerp(a, b, T::one()), bf, 0.0, a, b);
    let x11 = x * T::new(2) - T::one();
    let l11 = af + (bf - af) * (x11.to_f64() * 0.5 + 0.5);
    near!("lerp11", T, h::lerp11(a, b, x11), l11, 4.0 * e * scale, a, b, x11);
    near!("lerp11 at -1", T, h::lerp11(a, b, -T::one()), af, 0.0, a, b);
    near!("lerp11 at 1", T, h::lerp11(a, b, T::one()), bf, 0.0, a, b);
    if (af - bf).abs() > 1.0e-3 * scale && scale > 0.0 {
        let c = scale / (bf - af).abs();
        near!("delerp", T, h::delerp(a, b, h::lerp(a, b, x)), xf, 10.0 * e * (c + 1.0), a, b, x);
        near!("delerp11", T, h::delerp11(a, b, h::lerp11(a, b, x11)), x11.to_f64(), 20.0 * e * (c + 1.0), a, b, x11);
    }
    let (a, b) = (t::<T>(src.logf(1.0e-4, 1.0e5)), t::<T>(src.logf(1.0e-4, 1.0e5)));
    let (af, bf) = (a.to_f64(), b.to_f64());
    near!("xerp", T, h::xerp(a, b, x), (af.ln() * (1.0 - xf) + bf.ln() * xf).exp(), 60.0 * e * af.max(bf), a, b, x);
    near!("xerp at 0", T, h::xerp(a, b, T::zero()), af, 40.0 * e * af, a, b);
    near!("xerp at 1", T, h::xerp(a, b, T::one()), bf, 40.0 * e * bf, a, b);
    let y = x11.to_f64() * 0.5 + 0.5;
    near!("xerp11", T, h::xerp11(a, b, x11), (af.ln() * (1.0 - y) + bf.ln() * y).exp(), 60.0 * e * af.max(bf), a, b, x11);
    if (af / bf).ln().abs() > 0.1 {
        let c = 1.0 / (af / bf).ln().abs();
        near!("dexerp", T, h::dexerp(a, b, h::xerp(a, b, x)), xf, 100.0 * e * (c + 1.0), a, b, x);
        near!("dexerp11", T, h::dexerp11(a, b, h::xerp11(a, b, x11)), x11.to_f64(), 200.0 * e * (c + 1.0), a, b, x11);
        let z = t::<T>(src.logf(1.0e-4, 1.0e5));
        near!("dexerp of a value", T, h::dexerp(a, b, z), (z.to_f64() / af).ln() / (bf / af).ln(), 1000.0 * e * (c + 1.0), a, b, z);
    }
    Ok(())
}

fn splines<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let v: Vec<f64> = (0..5).map(|_| val(src)).collect();
    let y: Vec<T> = v.iter().map(|x| t::<T>(*x)).collect();
    let f: Vec<f64> = y.iter().map(|x| x.to_f64()).collect();
    let x = t::<T>(unit01(src));
    let xf = x.to_f64();
    let scale = f.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = 40.0 * e * scale;
    let p = |x: T| h::spline(y[0], y[1], y[2], y[3], x);
    near!("spline at 0", T, p(T::zero()), f[1], 0.0, y[0], y[1], y[2], y[3]);
    near!("spline at 1", T, p(T::one()), f[2], tol, y[0], y[1], y[2], y[3]);
    let (lo, hi) = f[..4].iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
    let s = p(x).to_f64();
    let over = (hi - lo) / 8.0 + tol;
    ensure!(s >= lo - over && s <= hi + over, "spline overshoot", "spline({:?}, {}) = {}", &f[..4], xf, s);
    // Hermite form with central difference slopes.
    let hermite = |m0: f64, m1: f64| { let (x2, x3) = (xf * xf, xf * xf * xf); (2.0 * x3 - 3.0 * x2 + 1.0) * f[1] + (x3 - 2.0 * x2 + xf) * m0 + (3.0 * x2 - 2.0 * x3) * f[2] + (x3 - x2) * m1 };
    near!("spline", T, p(x), hermite((f[2] - f[0]) * 0.5, (f[3] - f[1]) * 0.5), tol, y[0], y[1], y[2], y[3], x);
    // Monotonic spline.
    let m = |x: T| h::spline_mono(y[0], y[1], y[2], y[3], x);
    near!("spline_mono at 0", T, m(T::zero()), f[1], 0.0, y[0], y[1], y[2], y[3]);
    near!("spline_mono at 1", T, m(T::one()), f[2], tol, y[0], y[1], y[2], y[3]);
    let s = m(x).to_f64();
    ensure!(s >= f[1].min(f[2]) - tol && s <= f[1].max(f[2]) + tol, "spline_mono overshoot", "spline_mono::<{}>({:?}, {}) = {} overshoots", T::NAME, &f[..4], xf, s);
    let x2 = t::<T>(unit01(src));
    let (xa, xb) = if x.to_f64() <= x2.to_f64() { (x, x2) } else { (x2, x) };
    let d = (m(xb).to_f64() - m(xa).to_f64()) * if f[2] >= f[1] { 1.0 } else { -1.0 };
    ensure!(d >= -tol, "spline_mono monotone", "spline_mono::<{}>({:?}) goes the wrong way between {} and {}", T::NAME, &f[..4], xa.to_f64(), xb.to_f64());
    let slope = |a: f64, b: f64| if a * b <= 0.0 { 0.0 } else { 2.0 * a.signum() * a.abs().min(b.abs()).min(0.25 * (a + b).abs()) };
    near!("spline_mono", T, m(x), hermite(slope(f[1] - f[0], f[2] - f[1]), slope(f[2] - f[1], f[3] - f[2])), tol, y[0], y[1], y[2], y[3], x);
    // First order continuity across a node: the secants on both sides meet.
    if T::NAME == "f64" {
        let q = 1.0e-6;
        for (name, l, r) in [
            ("spline continuity", (p(T::one()).to_f64() - p(t::<T>(1.0 - q)).to_f64()) / q, (h::spline(y[1], y[2], y[3], y[4], t::<T>(q)).to_f64() - f[2]) / q),
            ("spline_mono continuity", (m(T::one()).to_f64() - m(t::<T>(1.0 - q)).to_f64()) / q, (h::spline_mono(y[1], y[2], y[3], y[4], t::<T>(q)).to_f64() - f[2]) / q),
        ] { ensure!((l - r).abs() <= 1.0e-4 * (scale + 1.0), name, "{:?}: slope {} before the node and {} after", f, l, r); }
    }
    Ok(())
}

fn easing<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let x = t::<T>(unit01(src));
    let y = t::<T>(unit01(src));
    let (x, y) = if x.to_f64() <= y.to_f64() { (x, y) } else { (y, x) };
    let xf = x.to_f64();
    let poly = |c: &[f64]| c.iter().rev().fold(0.0, |a, k| a * xf + k);
    let list: [(&str, fn(T) -> T, f64, f64); 7] = [
        ("smooth3", h::smooth3::<T>, poly(&[0.0, 0.0, 3.0, -2.0]), 8.0),
        ("smooth5", h::smooth5::<T>, poly(&[0.0, 0.0, 0.0, 10.0, -15.0, 6.0]), 40.0),
        ("smooth7", h::smooth7::<T>, poly(&[0.0, 0.0, 0.0, 0.0, 35.0, -84.0, 70.0, -20.0]), 250.0),
        ("smooth9", h::smooth9::<T>, poly(&[0.0, 0.0, 0.0, 0.0, 0.0, 126.0, -420.0, 540.0, -315.0, 70.0]), 1500.0),
        ("uparc", h::uparc::<T>, 1.0 - (1.0 - xf * xf).max(0.0).sqrt(), 0.0),
        ("downarc", h::downarc::<T>, ((2.0 - xf) * xf).max(0.0).sqrt(), 8.0),
        ("sine_ease", h::sine_ease::<T>, (xf * std::f64::consts::FRAC_PI_2).sin(), 0.0),
    ];
    for (name, f, want, c) in list {
        let tol = match name { "sine_ease" => 0.0018, "uparc" => 8.0 * e + 2.0 * e / (1.0 - xf * xf).max(e).sqrt(), _ => c * e };
        near!(name, T, f(x), want, tol, x);
        near!(format!("{} at 0", name), T, f(T::zero()), 0.0, e, x);
        near!(format!("{} at 1", name), T, f(T::one()), 1.0, 8.0 * e, x);
        let (p, q) = (f(x).to_f64(), f(y).to_f64());
        let mt = (c + 8.0) * e;
        ensure!(p >= -mt && p <= 1.0 + mt, format!("{} range", name), "{}::<{}>({}) = {}", name, T::NAME, xf, p);
        ensure!(q >= p - 2.0 * mt, format!("{} monotone", name), "{}::<{}>: {} at {} and {} at {}", name, T::NAME, p, xf, q, y.to_f64());
        if name.starts_with("smooth") { near!(format!("{} symmetry", name), T, f(T::one() - x), 1.0 - p, 4.0 * tol, x); }
    }
    // The arcs are inverse functions; the composition is ill conditioned at the vertical tangents.
    near!("uparc of downarc", T, h::uparc(h::downarc(x)), xf, 8.0 * e + 8.0 * e / (1.0 - xf).max(e.sqrt()), x);
    near!("downarc of uparc", T, h::downarc(h::uparc(x)), xf, 8.0 * e + 8.0 * e / xf.max(e.sqrt()), x);
    Ok(())
}

fn soft<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let (x, y, b) = (t::<T>(val(src)), t::<T>(val(src)), t::<T>(src.f64(-10.0, 10.0)));
    let (xf, yf, bf) = (x.to_f64(), y.to_f64(), b.to_f64());
    near!("softsign", T, h::softsign(x), xf / (1.0 + xf.abs()), 4.0 * e, x);
    let se = |z: f64| if z > 0.0 { z * z + z + 1.0 } else { 1.0 / (1.0 - z) };
    near!("softexp", T, h::softexp(x), se(xf), 8.0 * e * se(xf) + 4.0 * e * xf.abs().min(1.0), x);
    ensure!(h::softexp(x).to_f64() >= 0.0, "softexp sign", "softexp({}) < 0", xf);
    let m = h::softmix(x, y, b).to_f64();
    let scale = xf.abs() + yf.abs();
    let (xw, yw) = (se(xf * bf), se(yf * bf));
    near!("softmix", T, h::softmix(x, y, b), (xf * xw + yf * yw) / (xw + yw), scale * (1.0e-5 + 2.0e-10 / (xw + yw)), x, y, b);
    let tol = scale * (1.0e-5 + 2.0e-10 / (xw + yw));
    ensure!(m >= xf.min(yf) - tol && m <= xf.max(yf) + tol, "softmix range", "softmix({}, {}, {}) = {}", xf, yf, bf, m);
    let avg = (xf + yf) * 0.5;
    ensure!(if bf > 0.0 { m >= avg - tol } else { m <= avg + tol }, "softmix side", "softmix({}, {}, {}) = {}, average {}", xf, yf, bf, m, avg);
    near!("softmix without bias", T, h::softmix(x, y, T::zero()), avg, tol, x, y);
    let (lo, hi) = (if xf < yf { x } else { y }, if xf < yf { y } else { x });
    let z = t::<T>(val(src));
    near!("clamp", T, h::clamp(lo, hi, z), z.to_f64().max(lo.to_f64()).min(hi.to_f64()), 0.0, lo, hi, z);
    near!("clamp01", T, h::clamp01(z), z.to_f64().clamp(0.0, 1.0), 0.0, z);
    near!("clamp11", T, h::clamp11(z), z.to_f64().clamp(-1.0, 1.0), 0.0, z);
    near!("identity", T, h::identity(z), z.to_f64(), 0.0, z);
    near!("squared", T, h::squared(z), z.to_f64().powi(2), 2.0 * e * z.to_f64().powi(2), z);
    near!("cubed", T, h::cubed(z), z.to_f64().powi(3), 4.0 * e * z.to_f64().powi(3).abs(), z);
    Ok(())
}

fn elementary<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let x = t::<T>(val(src));
    let xf = x.to_f64();
    let s = t::<T>(src.f64(-30.0, 30.0));
    let sf = s.to_f64();
    let p = t::<T>(src.logf(1.0e-6, 1.0e6));
    let pf = p.to_f64();
    near!("abs", T, h::abs(x), xf.abs(), 0.0, x);
    if xf != 0.0 { near!("signum", T, h::signum(x), xf.signum(), 0.0, x); }
    near!("min", T, h::min(x, s), xf.min(sf), 0.0, x, s);
    near!("max", T, h::max(x, s), xf.max(sf), 0.0, x, s);
    near!("floor", T, h::floor(x), xf.floor(), 0.0, x);
    near!("ceil", T, h::ceil(x), xf.ceil(), 0.0, x);
    ensure!((h::round(x).to_f64() - xf).abs() <= 0.5 && h::round(x).to_f64().fract() == 0.0, "round", "round({}) = {}", xf, h::round(x).to_f64());
    near!("sqrt", T, h::sqrt(p), pf.sqrt(), 2.0 * e * pf.sqrt(), p);
    near!("exp", T, h::exp(s), sf.exp(), 4.0 * e * sf.exp(), s);
    near!("exp2", T, h::exp2(s), sf.exp2(), 4.0 * e * sf.exp2(), s);
    near!("exp10", T, h::exp10(s), 10f64.powf(sf), 300.0 * e * 10f64.powf(sf), s);
    near!("log", T, h::log(p), pf.ln(), 4.0 * e * (pf.ln().abs() + 1.0), p);
    near!("log2", T, h::log2(p), pf.log2(), 4.0 * e * (pf.log2().abs() + 1.0), p);
    near!("log10", T, h::log10(p), pf.log10(), 4.0 * e * (pf.log10().abs() + 1.0), p);
    near!("sin", T, h::sin(s), sf.sin(), 4.0 * e, s);
    near!("cos", T, h::cos(s), sf.cos(), 4.0 * e, s);
    near!("tan", T, h::tan(s), sf.tan(), 8.0 * e * (1.0 + sf.tan().powi(2)), s);
    near!("tanh", T, h::tanh(s), sf.tanh(), 4.0 * e, s);
    near!("atan", T, h::atan(x), xf.atan(), 4.0 * e, x);
    let q = t::<T>(src.f64(-4.0, 4.0));
    near!("pow", T, h::pow(p, q), pf.powf(q.to_f64()), 200.0 * e * pf.powf(q.to_f64()), p, q);
    Ok(())
}

fn units<T: Ty>(src: &mut Src) -> Res {
    let e = T::EPS;
    let db = t::<T>(src.f64(-120.0, 60.0));
    let dbf = db.to_f64();
    near!("db_amp", T, h::db_amp(db), 10f64.powf(dbf / 20.0), 60.0 * e * 10f64.powf(dbf / 20.0), db);
    near!("amp_db of db_amp", T, h::amp_db(h::db_amp(db)), dbf, 400.0 * e + 4.0 * e * dbf.abs(), db);
    let g = t::<T>(src.logf(1.0e-6, 1.0e3));
    near!("amp_db", T, h::amp_db(g), 20.0 * g.to_f64().log10(), 20.0 * 8.0 * e * 7.0, g);
    near!("db_amp of amp_db", T, h::db_amp(h::amp_db(g)), g.to_f64(), 100.0 * e * g.to_f64(), g);
    let s = t::<T>(src.f64(-60.0, 60.0));
    let r = t::<T>(src.f64(-60.0, 60.0));
    let sf = s.to_f64();
    near!("semitone_ratio", T, h::semitone_ratio(s), (sf / 12.0).exp2(), 20.0 * e * (sf / 12.0).exp2(), s);
    near!("semitone_ratio of a sum", T, h::semitone_ratio(s + r), h::semitone_ratio(s).to_f64() * h::semitone_ratio(r).to_f64(), 60.0 * e * ((sf + r.to_f64()) / 12.0).exp2(), s, r);
    let k = t::<T>(src.f64(0.0, 135.0));
    let hz = 440.0 * ((k.to_f64() - 69.0) / 12.0).exp2();
    near!("midi_hz", T, h::midi_hz(k), hz, 40.0 * e * hz, k);
    near!("midi_hz octave", T, h::midi_hz(k + T::new(12)), 2.0 * h::midi_hz(k).to_f64(), 80.0 * e * hz, k);
    let b = t::<T>(src.logf(0.1, 1000.0));
    near!("bpm_hz", T, h::bpm_hz(b), b.to_f64() / 60.0, 4.0 * e * b.to_f64(), b);
    // Oscillating functions of time.
    let f = t::<T>(src.logf(0.01, 100.0));
    let time = t::<T>(src.f64(-4.0, 4.0));
    let c = f.to_f64() * time.to_f64();
    let ct = 8.0 * e * (c.abs() + 1.0);
    near!("sin_hz", T, h::sin_hz(f, time), (c * std::f64::consts::TAU).sin(), 8.0 * ct, f, time);
    near!("cos_hz", T, h::cos_hz(f, time), (c * std::f64::consts::TAU).cos(), 8.0 * ct, f, time);
    let ph = c - c.floor();
    let tri = if ph < 0.25 { 4.0 * ph } else if ph < 0.75 { 2.0 - 4.0 * ph } else { 4.0 * ph - 4.0 };
    near!("tri_hz", T, h::tri_hz(f, time), tri, 8.0 * ct, f, time);
    let edge = ph.min((ph - 0.5).abs()).min(1.0 - ph);
    if edge > ct { near!("sqr_hz", T, h::sqr_hz(f, time), if ph < 0.5 { 1.0 } else { -1.0 }, 0.0, f, time); }
    // Loudness curves.
    let w = t::<T>(src.logf(10.0, 40000.0));
    let wf = w.to_f64();
    let f2 = wf * wf;
    let ra = |f2: f64| 12194f64.powi(2) * f2 * f2 / ((f2 + 20.6f64.powi(2)) * ((f2 + 107.7f64.powi(2)) * (f2 + 737.9f64.powi(2))).sqrt() * (f2 + 12194f64.powi(2)));
    let want = ra(f2) / ra(1.0e6);
    near!("a_weight", T, h::a_weight(w), want, (1.0e-4 + 40.0 * e) * want, w);
    let itu = |f: f64| {
        let h1 = -4.737338981378384e-24 * f.powi(6) + 2.043828333606125e-15 * f.powi(4) - 1.363894795463638e-7 * f.powi(2) + 1.0;
        let h2 = 1.306612257412824e-19 * f.powi(5) - 2.118150887518656e-11 * f.powi(3) + 5.559488023498642e-4 * f;
        1.246332637532143e-4 * f / (h1 * h1 + h2 * h2).sqrt()
    };
    let want = itu(wf) / itu(1000.0);
    near!("m_weight", T, h::m_weight(w), want, (1.0e-3 + 1000.0 * e) * want, w);
    // Dissonance.
    let (f0, f1) = (t::<T>(src.logf(10.0, 20000.0)), t::<T>(src.logf(10.0, 20000.0)));
    let d = h::dissonance(f0, f1).to_f64();
    ensure!((-1.0e-5..=1.0001).contains(&d), "dissonance range", "dissonance({}, {}) = {}", f0.to_f64(), f1.to_f64(), d);
    near!("dissonance symmetry", T, h::dissonance(f1, f0), d, 0.0, f0, f1);
    near!("dissonance of equals", T, h::dissonance(f0, f0), 0.0, 1.0e-6, f0);
    let top = h::dissonance(f0, h::dissonance_max(f0)).to_f64();
    ensure!(top >= 0.999 - 2.0e3 * e, "dissonance_max", "dissonance of {} and its maximum is {}", f0.to_f64(), top);
    let above = t::<T>(f0.to_f64() * (1.0 + src.logf(1.0e-4, 2.0)));
    ensure!(h::dissonance(f0, above).to_f64() <= top + 1.0e-3 + 2.0e3 * e, "dissonance_max is not maximal", "dissonance of {} and {} is above the maximum {}", f0.to_f64(), above.to_f64(), top);
    Ok(())
}

fn scalars(src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    let k = src.below(6);
    let wide = src.bool();
    ctx.note(format!("family {} {}", k, if wide { "f64" } else { "f32" }));
    match (k, wide) {
        (0, true) => interpolation::<f64>(src), (0, false) => interpolation::<f32>(src),
        (1, true) => splines::<f64>(src), (1, false) => splines::<f32>(src),
        (2, true) => easing::<f64>(src), (2, false) => easing::<f32>(src),
        (3, true) => soft::<f64>(src), (3, false) => soft::<f32>(src),
        (4, true) => elementary::<f64>(src), (4, false) => elementary::<f32>(src),
        (_, true) => units::<f64>(src), (_, false) => units::<f32>(src),
    }
}

fn vvalue(src: &mut Src) -> f32 {
    match src.below(6) {
        0 => src.f32(-3.0, 3.0),
        1 => src.int(-300, 300) as f32,
        2 => { let k = src.int(-300, 300) as f32 * 0.5; let d = src.int(-2, 2); f32::from_bits((k.to_bits() as i64 + d) as u32) }
        3 => src.logf32(1.0e-9, 1.0e30) * if src.bool() { 1.0 } else { -1.0 },
        4 => src.int(-(1 << 25), 1 << 25) as f32,
        _ => *src.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, 8388608.0, 4194304.5, -4194304.5, 16777217.0, 2147483648.0, -4294967296.0]),
    }
}

/// Vector elements agree with scalars lane by lane.
fn vectors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a: [f32; 8] = core::array::from_fn(|_| { let x = vvalue(src); if x.is_nan() { 1.0 } else { x } });
    let b: [f32; 8] = core::array::from_fn(|_| { let x = vvalue(src); if x.is_nan() { 1.0 } else { x } });
    let (x, y) = (F32x::new(a), F32x::new(b));
    ctx.note(format!("{:?} {:?}", a, b));
    ctx.nontrivial();
    macro_rules! lanes { ($name:expr, $v:expr, $f:expr) => {{ let v = $v; for i in 0..8 { let w: f32 = $f(a[i], b[i]); let g = v.as_array_ref()[i]; ensure!(g == w, format!("vector {}", $name), "{} of {:e}, {:e} is {:e}, the scalar is {:e}", $name, a[i], b[i], g, w); } }} }
    lanes!("abs", h::abs(x), |p: f32, _| p.abs());
    lanes!("min", h::min(x, y), |p: f32, q: f32| p.min(q));
    lanes!("max", h::max(x, y), |p: f32, q: f32| p.max(q));
    lanes!("floor", h::floor(x), |p: f32, _| p.floor());
    lanes!("ceil", h::ceil(x), |p: f32, _| p.ceil());
    lanes!("signum", h::signum(x), |p: f32, _| 1f32.copysign(p));
    lanes!("sqrt", h::sqrt(h::abs(x)), |p: f32, _| p.abs().sqrt());
    lanes!("clamp11", h::clamp11(x), |p: f32, _| p.clamp(-1.0, 1.0));
    for i in 0..8 {
        let r = h::round(x).as_array_ref()[i];
        ensure!((r as f64 - a[i] as f64).abs() <= 0.5 && r == r.trunc(), "vector round", "round of {:e} is {:e}", a[i], r);
        ensure!(x.get(i) == a[i], "vector get", "lane {} of {:?}", i, a);
    }
    let small = F32x::new(core::array::from_fn(|i| (a[i] % 20.0)));
    for i in 0..8 {
        let z = (a[i] % 20.0) as f64;
        for (name, g, w, tol) in [
            ("sin", h::sin(small).as_array_ref()[i], z.sin(), 2.0e-6), ("cos", h::cos(small).as_array_ref()[i], z.cos(), 2.0e-6),
            ("exp", h::exp(small).as_array_ref()[i], z.exp(), 2.0e-6 * z.exp()),
            ("tan", h::tan(small).as_array_ref()[i], z.tan(), 4.0e-6 * (1.0 + z.tan().powi(2)) + if z.tan().abs() > 1.0e3 { f64::INFINITY } else { 0.0 }),
        ] { ensure!((g as f64 - w).abs() <= tol, format!("vector {}", name), "{} of {} is {}, expected {}", name, z, g, w); }
    }
    let want: f64 = a.iter().map(|v| *v as f64).sum();
    let mag: f64 = a.iter().map(|v| v.abs() as f64).sum();
    ensure!((x.reduce_add() as f64 - want).abs() <= 1.0e-6 * mag, "vector reduce_add", "{:?}", a);
    let mut z = x;
    let l = src.size(0, 7);
    z.set(l, b[l]);
    for i in 0..8 { ensure!(z.get(i) == if i == l { b[i] } else { a[i] }, "vector set", "setting lane {} changed lane {}", l, i); }
    let f = x.to_frame();
    for i in 0..8 { ensure!(f[i] == a[i], "vector to_frame", "lane {}", i); }
    ensure!(F32x::from_frame(&f).to_array() == a, "vector from_frame", "{:?}", a);
    // Double precision vectors.
    let d: [f64; 4] = core::array::from_fn(|i| if i % 2 == 0 { a[i] as f64 } else { a[i] as f64 + b[i] as f64 * 1.0e-9 });
    let v = f64x4::new(d);
    for i in 0..4 {
        if d[i].abs() < 1.0e15 {
            ensure!(Num::floor(v).to_array()[i] == d[i].floor(), "double vector floor", "floor of {:e} is {:e}", d[i], Num::floor(v).to_array()[i]);
            ensure!(Num::ceil(v).to_array()[i] == d[i].ceil(), "double vector ceil", "ceil of {:e} is {:e}", d[i], Num::ceil(v).to_array()[i]);
        }
        ensure!(Num::abs(v).to_array()[i] == d[i].abs(), "double vector abs", "{:e}", d[i]);
    }
    Ok(())
}

fn hashes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = |src: &mut Src| (src.below(1 << 32) << 32) | src.below(1 << 32);
    let x = match src.below(3) { 0 => src.below(1000), 1 => big(src), _ => 1u64 << src.below(64) };
    // A neighbour that differs in one or two bits, or by a multiple of a power of two.
    let y = match src.below(4) {
        0 => x ^ (1u64 << src.below(64)),
        1 => x ^ (1u64 << src.below(64)) ^ (1u64 << src.below(64)),
        2 => x.wrapping_add(src.below(16) << src.below(64)),
        _ => x.wrapping_add(1),
    };
    ctx.note(format!("{:x} {:x}", x, y));
    let fs: [(&str, fn(u64) -> u64); 2] = [("hash1", h::hash1), ("hash2", h::hash2)];
    for (n, f) in fs {
        ensure!(f(x) == f(x), format!("{} deterministic", n), "{:x}", x);
        if x != y { ensure!(f(x) != f(y), format!("{} is not a permutation", n), "{:x} and {:x} both hash to {:x}", x, y, f(x)); }
    }
    if x != y { ctx.nontrivial(); }
    let rs: [(&str, fn(u64) -> f64); 2] = [("rnd1", h::rnd1), ("rnd2", h::rnd2)];
    for (n, f) in rs {
        let v = f(x);
        ensure!((0.0..1.0).contains(&v), format!("{} range", n), "{}({:x}) = {}", n, x, v);
        if x != y { ensure!(v != f(y), format!("{} repeats", n), "{}({:x}) = {}({:x})", n, x, n, y); }
    }
    let a = AttoHash::new(x);
    ensure!(a.state() == x, "attohash seed", "{:x}", x);
    let (u, w): (f64, f64) = (a.clone().hash01(), a.clone().hash11());
    ensure!((0.0..=1.0).contains(&u) && (-1.0..=1.0).contains(&w), "attohash range", "{} {}", u, w);
    let (uf, wf): (f32, f32) = (a.clone().hash01(), a.clone().hash11());
    ensure!(uf == u as f32 && wf == w as f32, "attohash precision", "{} {} {} {}", u, uf, w, wf);
    if x != y {
        ensure!(a.clone().hash(x).state() != a.clone().hash(y).state(), "attohash data", "{:x} {:x}", x, y);
        ensure!(AttoHash::new(y).hash(5).state() != a.clone().hash(5).state(), "attohash state", "{:x} {:x}", x, y);
    }
    Ok(())
}

/// Statistics of successive values, with thresholds beyond six standard deviations.
fn statistics(src: &mut Src, ctx: &mut Ctx) -> Res {
    let base = match src.below(3) { 0 => 0, 1 => src.below(1 << 32), _ => src.below(1 << 32) << 32 };
    let n = 4096u64;
    ctx.note(format!("from {:x}", base));
    ctx.nontrivial();
    let lim = 6.5 * (n as f64).sqrt() / 2.0;
    let fs: [(&str, fn(u64) -> u64); 2] = [("hash1", h::hash1), ("hash2", h::hash2)];
    for (name, f) in fs {
        let lag = src.below(4) + 1;
        let (bit, other) = (src.below(64), src.below(64));
        let (mut ones, mut agree, mut pair) = (0i64, 0i64, 0i64);
        for i in 0..n {
            let (p, q) = (f(base + i), f(base + i + lag));
            ones += (p >> bit & 1) as i64;
            agree += ((p ^ q) >> bit & 1) as i64;
            pair += ((p >> bit ^ q >> other) & 1) as i64;
        }
        for (what, c) in [("balance", ones), ("serial correlation", agree), ("cross correlation", pair)] {
            ensure!((c as f64 - n as f64 / 2.0).abs() <= lim, format!("{} {}", name, what), "{} of {}: bit {} ({}), lag {}: {} of {}", what, name, bit, other, lag, c, n);
        }
    }
    let seed = src.below(1 << 32);
    let rs: [(&str, Box<dyn Fn(u64) -> f64>); 5] = [
        ("rnd1", Box::new(h::rnd1)), ("rnd2", Box::new(h::rnd2)),
        ("hash01", Box::new(move |i| AttoHash::new(seed).hash(i).hash01::<f64>())),
        ("hash11", Box::new(move |i| AttoHash::new(seed).hash(i).hash11::<f64>() * 0.5 + 0.5)),
        ("ease_noise points", Box::new(move |i| h::ease_noise(h::smooth3, seed, (i % (1 << 40)) as f64) * 0.5 + 0.5)),
    ];
    for (name, f) in rs {
        let v: Vec<f64> = (0..n + 1).map(|i| f(base + i) - 0.5).collect();
        let m = v.iter().take(n as usize).sum::<f64>() / n as f64;
        let q = v.iter().take(n as usize).map(|x| x * x).sum::<f64>() / n as f64;
        let c = v.windows(2).map(|w| w[0] * w[1]).sum::<f64>() / n as f64;
        ensure!(m.abs() < 6.5 * 0.2887 / 64.0, format!("{} mean", name), "{}: mean {}", name, m);
        ensure!((q - 1.0 / 12.0).abs() < 6.5 * 0.0745 / 64.0, format!("{} variance", name), "{}: second moment {}", name, q);
        ensure!(c.abs() < 6.5 * (1.0 / 12.0) / 64.0, format!("{} serial", name), "{}: serial correlation {}", name, c * 12.0);
    }
    Ok(())
}

fn noises(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = if src.bool() { src.below(100) } else { src.below(1 << 40) };
    let x = match src.below(4) { 0 => src.int(-100, 100) as f64, 1 => src.f64(-10.0, 10.0), 2 => src.int(-100, 100) as f64 + 1.0e-9, _ => src.f64(-1.0e5, 1.0e5) };
    let oct = src.int(1, 10);
    let rough = src.logf(0.05, 2.0);
    ctx.note(format!("seed {} x {} octaves {} roughness {}", seed, x, oct, rough));
    ctx.nontrivial();
    let d = 1.0e-6;
    let e1 = |x: f64| h::ease_noise(h::smooth3, seed, x);
    let e2 = |x: f64| h::ease_noise((h::uparc, h::smooth5), seed, x);
    let sp = |x: f64| h::spline_noise(seed, x);
    let fr = |x: f64| h::fractal_noise(seed, oct, rough, x);
    let fe = |x: f64| h::fractal_ease_noise(h::smooth5, seed, oct, rough, x);
    let top = 2f64.powi(oct as i32 - 1);
    let list: [(&str, &dyn Fn(f64) -> f64, f64); 5] = [("ease_noise", &e1, 3.0), ("ease_noise pair", &e2, 3.0e3), ("spline_noise", &sp, 8.0), ("fractal_noise", &fr, 8.0 * top), ("fractal_ease_noise", &fe, 8.0 * top)];
    for (name, f, slope) in list {
        let (a, b, c) = (f(x), f(x), f(x + d));
        ensure!(a == b, format!("{} deterministic", name), "{} and {}", a, b);
        ensure!(a.abs() <= 1.0 + 1.0e-9, format!("{} range", name), "{}(seed {}, x {}) = {}", name, seed, x, a);
        ensure!((a - c).abs() <= slope * d * 1.5 + 1.0e-8, format!("{} continuity", name), "{} jumps from {} to {} at {}", name, a, c, x);
    }
    let g = h::spline_noise(seed, x as f32);
    ensure!(g.abs() <= 1.00001, "spline_noise f32 range", "{}", g);
    // Easing noise interpolates the values at the surrounding integers.
    let (p, q) = (e1(x.floor()), e1(x.floor() + 1.0));
    let w = p + (q - p) * h::smooth3(x - x.floor());
    ensure!((e1(x) - w).abs() <= 1.0e-12, "ease_noise interpolation", "{} and {}", e1(x), w);
    let ease = |t: f64| if q >= p { h::uparc(t) } else { h::smooth5(t) };
    let w = p + (q - p) * ease(x - x.floor());
    ensure!((e2(x) - w).abs() <= 1.0e-12, "ease_noise pair interpolation", "{} and {}", e2(x), w);
    // One octave equals the underlying noise's range and never depends on roughness.
    let o1 = h::fractal_noise(seed, 1, rough, x);
    ensure!(o1 == h::fractal_noise(seed, 1, 1.0, x), "fractal_noise single octave", "depends on roughness");
    let o1 = h::fractal_ease_noise(h::smooth3, seed, 1, rough, x);
    ensure!(o1 == h::fractal_ease_noise(h::smooth3, seed, 1, 1.0, x), "fractal_ease_noise single octave", "depends on roughness");
    Ok(())
}

/// A permutation has no collisions on any large set of arguments.
fn permutation(src: &mut Src, ctx: &mut Ctx) -> Res {
    let start = src.seed();
    let stride = match src.below(3) { 0 => 1, 1 => 1u64 << src.below(32), _ => src.seed() | 1 };
    let n = 1usize << 24;
    ctx.note(format!("{} arguments from {:x} step {:x}", n, start, stride));
    ctx.nontrivial();
    let fs: [(&str, fn(u64) -> u64); 2] = [("hash1", h::hash1), ("hash2", h::hash2)];
    for (name, f) in fs {
        let mut v: Vec<u64> = (0..n as u64).map(|i| f(start.wrapping_add(i.wrapping_mul(stride)))).collect();
        v.sort_unstable();
        if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) { return fail(format!("{} is not a permutation", name), format!("two arguments hash to {:x}", w[0])); }
    }
    Ok(())
}

/// Noise peaks: the range holds over a long run of segments, at the points where splines overshoot.
fn peaks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.seed();
    let start = src.int(-1_000_000, 1_000_000);
    ctx.note(format!("seed {} from {}", seed, start));
    ctx.nontrivial();
    for i in start..start + 100_000 {
        let x = i as f64 + 0.5;
        let a = h::spline_noise(seed, x);
        ensure!(a.abs() <= 1.0 + 1.0e-9, "spline_noise range", "spline_noise(seed {}, x {}) = {}", seed, x, a);
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C21",
        rule: "scalars: one family of helpers in f32 or f64 on random arguments with edge values, against double precision definitions and algebraic laws; vectors: SIMD elements lane by lane against scalars; hashes: neighbouring arguments never collide; statistics of 4096 successive values; noises: range, continuity and interpolation; permutation: no collisions among 16 million hashes; peaks: the spline noise range in 100000 consecutive segments. Non-trivial when the arguments differ (hashes) or always",
        assumptions: &["rounding of exact halves is unspecified", "finite arguments"],
        subs: vec![
            Sub { name: "scalars", quick: 6000000, thorough: 100000000, f: scalars },
            Sub { name: "vectors", quick: 400000, thorough: 20000000, f: vectors },
            Sub { name: "hashes", quick: 1000000, thorough: 50000000, f: hashes },
            Sub { name: "statistics", quick: 3000, thorough: 30000, f: statistics },
            Sub { name: "noises", quick: 200000, thorough: 10000000, f: noises },
            Sub { name: "permutation", quick: 2, thorough: 100, f: permutation },
            Sub { name: "peaks", quick: 40, thorough: 2000, f: peaks },
        ],
    })
}
