//! C16: delay lines.
use fundsp::hacker as h;
use fundsp::hacker::{AudioUnit, Net, U2, U3};
use vfcore::kind::Kind;
use vfcore::render::{all_ticks, describe_steps, gen_input, gen_steps, rnd11, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
const RATES: [f64; 8] = [44100.0, 48000.0, 8000.0, 96000.0, 22050.0, 1000.0, 192000.0, 11025.0];

/// A linear delay network and its impulse response.
#[derive(Clone)]
enum D { Delay(f64), Tick, Fir(Vec<f32>), Fir3(f32), Scale(f32), Pass, Pipe(Box<D>, Box<D>), Bus(Box<D>, Box<D>) }
impl D {
    fn gen(src: &mut Src, depth: usize, sr: f64) -> D {
        if depth > 0 && src.below(3) > 0 {
            let (a, b) = (Box::new(D::gen(src, depth - 1, sr)), Box::new(D::gen(src, depth - 1, sr)));
            return if src.bool() { D::Pipe(a, b) } else { D::Bus(a, b) };
        }
        match src.below(8) {
            0 | 1 | 2 => { let k = if src.chance(1, 6) { src.size(100, 700) } else { src.size(0, 70) }; D::Delay((k as f64 + *src.pick(&[0.0, 0.4, -0.4])).max(0.0) / sr) }
            3 => D::Tick,
            4 => { let n = src.size(1, 5); D::Fir((0..n).map(|_| src.int(-8, 8) as f32 / 8.0).collect()) }
            5 => D::Fir3(src.below(17) as f32 / 8.0),
            6 => D::Scale(src.int(-8, 8) as f32 / 8.0),
            _ => D::Pass,
        }
    }
    fn net(&self) -> Net {
        match self {
            D::Delay(t) => Net::wrap(Box::new(fundsp::prelude::delay(*t))),
            D::Tick => Net::wrap(Box::new(h::tick())),
            D::Fir(w) => Net::wrap(match w.len() {
                1 => Box::new(h::fir(w[0])),
                2 => Box::new(h::fir((w[0], w[1]))),
                3 => Box::new(h::fir((w[0], w[1], w[2]))),
                4 => Box::new(h::fir((w[0], w[1], w[2], w[3]))),
                _ => Box::new(h::fir((w[0], w[1], w[2], w[3], w[4]))),
            }),
            D::Fir3(g) => Net::wrap(Box::new(h::fir3(*g))),
            D::Scale(g) => Net::wrap(Box::new(h::mul(*g))),
            D::Pass => Net::wrap(Box::new(h::pass())),
            D::Pipe(a, b) => a.net() >> b.net(),
            D::Bus(a, b) => a.net() & b.net(),
        }
    }
    /// Sparse impulse response: (delay, weight).
    fn response(&self, sr: f64) -> Vec<(usize, f64)> {
        let v = match self {
            D::Delay(t) => vec![((t * sr).round() as usize, 1.0)],
            D::Tick => vec![(1, 1.0)],
            D::Fir(w) => w.iter().rev().enumerate().map(|(i, x)| (i, *x as f64)).collect(),
            D::Fir3(g) => { let a = (*g as f64 + 1.0) / 2.0; let b = (1.0 - a) / 2.0; vec![(0, b), (1, a), (2, b)] }
            D::Scale(g) => vec![(0, *g as f64)],
            D::Pass => vec![(0, 1.0)],
            D::Pipe(a, b) => { let (a, b) = (a.response(sr), b.response(sr)); a.iter().flat_map(|x| b.iter().map(move |y| (x.0 + y.0, x.1 * y.1))).collect() }
            D::Bus(a, b) => { let mut v = a.response(sr); v.extend(b.response(sr)); v }
        };
        let mut m = std::collections::BTreeMap::new();
        for (i, x) in v { *m.entry(i).or_insert(0.0) += x; }
        m.into_iter().collect()
    }
    /// Only delays in series, which are exact.
    fn pure(&self) -> bool { match self { D::Delay(_) | D::Tick | D::Pass => true, D::Pipe(a, b) => a.pure() && b.pure(), _ => false } }
    fn describe(&self) -> String {
        match self {
            D::Delay(t) => format!("delay({})", t), D::Tick => "tick".into(), D::Fir(w) => format!("fir({:?})", w), D::Fir3(g) => format!("fir3({})", g),
            D::Scale(g) => format!("mul({})", g), D::Pass => "pass".into(),
            D::Pipe(a, b) => format!("({} >> {})", a.describe(), b.describe()), D::Bus(a, b) => format!("({} & {})", a.describe(), b.describe()),
        }
    }
}

fn networks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&RATES);
    let d = D::gen(src, 3, sr);
    let mut u: Un = match &d { D::Delay(t) => Box::new(fundsp::prelude::delay(*t)), D::Tick => Box::new(h::tick()), D::Fir3(g) => Box::new(h::fir3(*g)), _ => Box::new(d.net()) };
    let mut log = format!("{} at {}", d.describe(), sr);
    // Earlier life at other rates and with other signals leaves no trace after a reset.
    let past = src.size(0, 2);
    for _ in 0..past {
        let r = *src.pick(&RATES);
        u.set_sample_rate(r);
        let n = src.size(1, 100);
        let x = gen_input(src, &[Kind::Audio], n);
        let st = gen_steps(src, n);
        render::render(&mut *u, &x, 0, &st);
        log.push_str(&format!(" after {} samples at {}", n, r));
    }
    u.set_sample_rate(sr);
    if past > 0 { u.reset(); }
    let r = d.response(sr);
    let n = if src.chance(1, 5) { src.size(1, 1500) } else { src.size(1, 200) };
    let x = gen_input(src, &[Kind::Audio], n);
    let st = gen_steps(src, n);
    log.push_str(&format!("; {}", describe_steps(&st)));
    ctx.note(&log);
    if r.iter().any(|x| x.0 > 0 && x.0 < n) { ctx.nontrivial(); }
    let y = render::render(&mut *u, &x, 0, &st);
    let mass: f64 = r.iter().map(|x| x.1.abs()).sum();
    let single = d.pure();
    let pk = render::peak(&x).max(1.0e-30);
    for i in 0..n {
        let want: f64 = r.iter().filter(|t| t.0 <= i).map(|t| t.1 * x[0][i - t.0] as f64).sum();
        let got = y[0][i];
        if single { ensure!(got == want as f32, "delay", "sample {} is {}, should be {}: {}", i, got, want, log); }
        ensure!((got as f64 - want).abs() <= 2.0e-6 * (mass + 1.0) * pk, "network", "sample {} is {}, should be {}: {}", i, got, want, log);
    }
    Ok(())
}

/// Many channels of single sample delay stay apart.
fn channels(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.below(3);
    let (mut u, n): (Un, usize) = match k { 0 => (Box::new(h::multitick::<U2>()), 2), 1 => (Box::new(h::multitick::<U3>()), 3), _ => (Box::new(h::multitick::<fundsp::hacker::U7>()), 7) };
    let len = src.size(1, 150);
    let x = gen_input(src, &vec![Kind::Audio; n], len);
    let st = gen_steps(src, len);
    ctx.note(format!("multitick {} {}", n, describe_steps(&st)));
    if len > 1 { ctx.nontrivial(); }
    let y = render::render(&mut *u, &x, 0, &st);
    for c in 0..n { for i in 0..len { let w = if i > 0 { x[c][i - 1] } else { 0.0 }; ensure!(same(y[c][i], w), "multitick", "channel {} sample {} is {}, should be {}", c, i, y[c][i], w); } }
    Ok(())
}

fn spline(y0: f64, y1: f64, y2: f64, y3: f64, x: f64) -> f64 {
    // Cubic through y1 and y2 with slopes of the neighbouring chords.
    let (m1, m2) = ((y2 - y0) / 2.0, (y3 - y1) / 2.0);
    let (a, b, c, d) = (2.0 * x * x * x - 3.0 * x * x + 1.0, x * x * x - 2.0 * x * x + x, -2.0 * x * x * x + 3.0 * x * x, x * x * x - x * x);
    a * y1 + b * m1 + c * y2 + d * m2
}

fn taps(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&RATES);
    let linear = src.bool();
    let n = src.size(1, 3);
    // Limits in samples: tiny, around powers of two, or large.
    let hi = match src.below(4) { 0 => src.f64(0.0, 4.0), 1 => 2.0f64.powi(src.size(1, 8) as i32) + src.f64(-14.0, 6.0), 2 => src.f64(0.0, 100.0), _ => src.f64(100.0, 2000.0) }.max(0.0);
    let lo = match src.below(3) { 0 => 0.0, 1 => src.f64(0.0, hi.min(3.0)), _ => src.f64(0.0, hi) }.min(hi);
    let (lo_s, hi_s) = ((lo / sr) as f32, (hi / sr) as f32);
    if lo_s > hi_s { return Ok(()); }
    let mut u: Un = match (linear, n) {
        (false, 1) => Box::new(h::tap(lo_s, hi_s)), (false, 2) => Box::new(h::multitap::<U2>(lo_s, hi_s)), (false, _) => Box::new(h::multitap::<U3>(lo_s, hi_s)),
        (true, 1) => Box::new(h::tap_linear(lo_s, hi_s)), (true, 2) => Box::new(h::multitap_linear::<U2>(lo_s, hi_s)), (true, _) => Box::new(h::multitap_linear::<U3>(lo_s, hi_s)),
    };
    let mut log = format!("{} taps {} of {}..{} samples at {}", n, if linear { "linear" } else { "cubic" }, lo, hi, sr);
    if src.bool() {
        let r = *src.pick(&RATES);
        u.set_sample_rate(r);
        let m = src.size(1, 100);
        let x: Sig = (0..n + 1).map(|c| (0..m).map(|i| if c == 0 { rnd11(5, i as u64) } else { hi_s }).collect()).collect();
        render::render(&mut *u, &x, 0, &all_ticks(m));
        log.push_str(&format!(" after {} samples at {}", m, r));
        u.set_sample_rate(sr);
        u.reset();
    }
    u.set_sample_rate(sr);
    let len = if src.chance(1, 4) { src.size(1, 2500) } else { src.size(1, 300) };
    let mut x = gen_input(src, &[Kind::Audio], len);
    for _ in 0..n {
        // Delay in samples over time.
        let kind = src.below(5);
        let seed = src.seed();
        let a = src.f64(lo, hi);
        x.push((0..len).map(|i| {
            let r = rnd11(seed, i as u64) as f64 * 0.5 + 0.5;
            let s = match kind { 0 => a, 1 => lo + (hi - lo) * r, 2 => (lo + (hi - lo) * r).round(), 3 => lo - 20.0 + (hi - lo + 40.0) * r, _ => *[lo, hi, lo - 1.0e5, hi + 1.0e5, a].get((r * 4.99) as usize).unwrap() };
            (s / sr) as f32
        }).collect());
    }
    let st = gen_steps(src, len);
    log.push_str(&format!("; {}", describe_steps(&st)));
    ctx.note(&log);
    ctx.nontrivial();
    let y = render::render(&mut *u, &x, 0, &st);
    let pk = render::peak(&vec![x[0].clone()]).max(1.0e-30);
    let at = |i: i64| if i >= 0 && i < len as i64 { x[0][i as usize] as f64 } else { 0.0 };
    for i in 0..len {
        let (mut want, mut tol) = (0.0, 1.0e-5 * pk * n as f64);
        for c in 1..=n {
            let mut s = (x[c][i].clamp(lo_s, hi_s)) as f64 * sr;
            if !linear { s = s.max(1.0); }
            let f = s.floor();
            let (k, d) = (i as i64 - f as i64, s - f);
            want += if linear { at(k) + (at(k - 1) - at(k)) * d } else { spline(at(k + 1), at(k), at(k - 1), at(k - 2), d) };
            // Single precision of the delay in samples, and the smallest cubic delay.
            tol += 6.0 * pk * (s * 2.4e-7 + if linear { 1.0e-6 } else { 1.2e-5 });
            if k + 1 > i as i64 && d == 0.0 && !linear { /* exactly one sample: no newer sample counts */ }
        }
        ensure!((y[0][i] as f64 - want).abs() <= tol, "taps", "sample {} is {}, should be {}: {}", i, y[0][i], want, log);
    }
    Ok(())
}

/// Causality: samples that have not been played yet never influence a tap, and neither do ones beyond its reach.
fn reach(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&RATES);
    let linear = src.bool();
    let hi = match src.below(3) { 0 => src.size(1, 8), 1 => (1usize << src.size(2, 7)) + src.size(0, 12) - 6.min(1 << 1), _ => src.size(1, 300) };
    let hi_s = ((hi as f64 + 0.5) / sr) as f32;
    let len = hi + 40;
    let mut x = vec![vec![0.0f32; len], vec![0.0f32; len]];
    // One impulse; the delay is held at a whole number of samples.
    let at = src.size(0, 20);
    let k = src.size(if linear { 0 } else { 2 }, h::max(hi, if linear { 0 } else { 2 }));
    if k > hi { return Ok(()); }
    x[0][at] = 1.0;
    x[1].fill((k as f64 / sr) as f32);
    let st = gen_steps(src, len);
    let mut u: Un = if linear { Box::new(h::tap_linear(0.0, hi_s)) } else { Box::new(h::tap(0.0, hi_s)) };
    u.set_sample_rate(sr);
    let y = render::render(&mut *u, &x, 0, &st);
    let desc = format!("impulse at {} delayed by {} of {} samples at {}, linear {}: {}", at, k, hi, sr, linear, describe_steps(&st));
    ctx.note(&desc);
    ctx.nontrivial();
    for i in 0..len {
        let want = if i == at + k { 1.0 } else { 0.0 };
        ensure!((y[0][i] - want).abs() <= 2.0e-3, "reach", "sample {} is {}, should be {}: {}", i, y[0][i], want, desc);
    }
    Ok(())
}

/// Delays of seconds: two impulses through a fixed delay and, at a held delay time, through taps.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&RATES);
    let hi = 1000usize << src.below(8);
    let hi = src.size(hi / 2, hi);
    let (a, b) = (src.size(0, 500), src.size(501, hi + 500));
    let len = b + hi + 100;
    let mut x = vec![0.0f32; len];
    x[a] = 1.0;
    x[b] = -0.5;
    let st = gen_steps(src, len);
    let kind = src.below(3);
    // Single precision delay times in samples are off by a fraction of this.
    let slack = (hi as f32 * 4.0e-7).ceil() as usize * (kind > 0) as usize;
    let (mut u, k): (Un, usize) = match kind {
        0 => (Box::new(h::delay((hi as f64 / sr) as f32)), hi),
        1 => (Box::new((h::pass() | h::dc((hi as f64 / sr) as f32)) >> h::tap(0.0, (hi as f64 / sr) as f32)), hi),
        _ => (Box::new((h::pass() | h::dc((hi as f64 / sr) as f32)) >> h::tap_linear(0.0, (hi as f64 / sr) as f32)), hi),
    };
    u.set_sample_rate(sr);
    let y = render::render(&mut *u, &vec![x.clone()], 0, &st);
    let desc = format!("{} of {} samples at {}, impulses at {} and {}", ["delay", "tap", "tap_linear"][kind as usize], k, sr, a, b);
    ctx.note(&desc);
    ctx.nontrivial();
    for (p, amp) in [(a + k, 1.0f64), (b + k, -0.5)] {
        // All of the impulse arrives within the interpolator's reach and nothing anywhere else.
        let w = if kind == 0 { 0 } else { 2 + slack };
        let sum: f64 = (p.saturating_sub(w)..=p + w).filter(|i| *i < len && (b - a > 2 * w || *i == p)).map(|i| y[0][i] as f64).sum();
        if b - a > 4 * w + 4 { ensure!((sum - amp).abs() < 1.0e-3, "long", "the impulse expected at {} arrives as {}: {}", p, sum, desc); }
    }
    let w = if kind == 0 { 0 } else { 2 + slack };
    for i in 0..len {
        let near = |p: usize| i + w >= p && i <= p + w;
        if !near(a + k) && !near(b + k) { ensure!(y[0][i].abs() < 1.0e-4, "long-silence", "sample {} is {}: {}", i, y[0][i], desc); }
    }
    Ok(())
}

/// The voices of a chorus are delays within the stated spans, each at the level of the original.
fn chorus(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0f64, 48000.0, 22050.0, 96000.0]);
    let sep = src.logf32(0.001, 0.02);
    let var = sep * src.f32(0.0, 0.7);
    let speed = src.f32(0.0, 0.4);
    let seed = src.seed();
    let at = src.size(0, 5000);
    let n = at + ((4.0 * sep + var) as f64 * sr) as usize + 50;
    ctx.note(format!("chorus({seed}, {sep}, {var}, {speed}) at {sr} Hz, impulse at {at}"));
    let mut u: Un = Box::new(h::chorus(seed, sep, var, speed));
    u.set_sample_rate(sr);
    let x: Sig = vec![(0..n).map(|i| if i == at { 1.0 } else { 0.0 }).collect()];
    let y = render::render(&mut *u, &x, 0, &gen_steps(src, n));
    let mut sums = [0.0f64; 5];
    for (i, v) in y[0].iter().enumerate() {
        if *v == 0.0 { continue; }
        let d = i as f64 - at as f64;
        let voice = (0..5).find(|k| {
            let k = *k as f64;
            let lo = k * sep as f64 * sr;
            if k == 0.0 { d == 0.0 } else { d >= lo - 2.1 && d <= lo + var as f64 * sr + 2.1 }
        });
        match voice {
            Some(k) => sums[k] += *v as f64,
            None => ensure!(v.abs() < 1.0e-7, "chorus-span", "there is output {v} at {d} samples, outside the span of every voice"),
        }
    }
    for (k, v) in sums.iter().enumerate() {
        ensure!((v - 0.2).abs() <= if k == 0 { 1.0e-6 } else { 0.06 }, "chorus-level", "voice {k} sounds at level {v}");
    }
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C16",
        rule: "networks: random series and parallel networks of delays, ticks and FIRs against convolution; taps: fixed, random, integral, out-of-range and extreme delay signals against interpolation of the input history; reach: an impulse at a whole delay; long: delays of up to 128000 samples; all at random sample rates, block partitions and after an earlier life. Non-trivial when a delayed sample is heard",
        assumptions: &["single precision of the delay time in samples", "delay times are not within 0.1 samples of a rounding boundary", "the last FIR weight applies to the newest sample"],
        subs: vec![
            Sub { name: "networks", quick: 300000, thorough: 20000000, f: networks },
            Sub { name: "channels", quick: 20000, thorough: 500000, f: channels },
            Sub { name: "taps", quick: 500000, thorough: 40000000, f: taps },
            Sub { name: "reach", quick: 300000, thorough: 20000000, f: reach },
            Sub { name: "chorus", quick: 6000, thorough: 100000, f: chorus },
            Sub { name: "long", quick: 3000, thorough: 300000, f: long },
        ],
    })
}
