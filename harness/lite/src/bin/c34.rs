//! C34: panning and mixing keep power; reverbs are linear, stable and decay in proportion to their time.
use fundsp::hacker as h;
use fundsp::GenericSequence;
use fundsp::hacker::{An, AudioUnit, Frame, Mixer, Net, U1, U2, U3, U4};
use vfcore::render::{all_blocks, describe_steps, gen_steps, peak, render, rnd11, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;

fn weights(v: f32) -> (f64, f64) {
    let a = ((v as f64).max(-1.0).min(1.0) + 1.0) * std::f64::consts::PI * 0.25;
    (a.cos(), a.sin())
}

fn gen_pan(src: &mut Src) -> f32 {
    match src.below(8) { 0 => -1.0, 1 => 1.0, 2 => 0.0, 3 => src.f32(-4.0, 4.0), _ => src.f32(-1.0, 1.0) }
}

fn panning(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 200);
    let steps = gen_steps(src, n);
    let s = src.seed();
    let audio: Vec<f32> = (0..n).map(|i| rnd11(s, i as u64)).collect();
    let mut pans: Vec<f32> = vec![];
    let hold = src.size(1, 90);
    let mut v = gen_pan(src);
    for i in 0..n { if i % hold == hold - 1 { v = gen_pan(src); } pans.push(v); }
    let kind = src.below(4);
    let mut input: Sig = vec![audio.clone()];
    let mut u: Un = match kind {
        0 => { pans = vec![v; n]; Box::new(h::pan(v)) }
        1 => { input.push(pans.clone()); Box::new(h::panner()) }
        2 => { pans = vec![v; n]; Box::new(h::pan(gen_pan(src))) }
        _ => { input.push(pans.clone()); Box::new(Net::wrap(Box::new(h::panner()))) }
    };
    if kind == 2 { u.set(h::Setting::pan(v)); }
    ctx.note(format!("kind {} pan {:?}.. {}", kind, &pans[..pans.len().min(4)], describe_steps(&steps)));
    let y = render(&mut *u, &input, 0, &steps);
    for i in 0..n {
        let (l, r) = weights(pans[i]);
        for (c, w) in [(0, l), (1, r)] {
            let e = w * audio[i] as f64;
            ensure!(close(y[c][i] as f64, e, 1.0e-6, 0.0), "pan-law", "pan {} of {}: channel {} is {} instead of {} (kind {})", pans[i], audio[i], c, y[c][i], e, kind);
        }
        let (p, q) = (y[0][i].powi(2) + y[1][i].powi(2), audio[i].powi(2));
        ensure!((p - q).abs() <= 2.0e-6, "power", "power {} from {} at pan {}", p, q, pans[i]);
    }
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}

fn mixing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 150);
    let steps = gen_steps(src, n);
    let m: Vec<f32> = (0..12).map(|_| if src.chance(1, 5) { 0.0 } else { src.f32(-2.0, 2.0) }).collect();
    let kind = src.below(5);
    let (ins, outs) = [(2, 2), (1, 3), (3, 1), (4, 2), (3, 4)][kind as usize];
    let at = |o: usize, i: usize| m[o * ins + i];
    let mut u: Un = match kind {
        0 => Box::new(An(Mixer::<U2, U2>::new(Frame::generate(|o| Frame::generate(|i| at(o, i)))))),
        1 => Box::new(An(Mixer::<U1, U3>::new(Frame::generate(|o| Frame::generate(|i| at(o, i)))))),
        2 => Box::new(An(Mixer::<U3, U1>::new(Frame::generate(|o| Frame::generate(|i| at(o, i)))))),
        3 => Box::new(An(Mixer::<U4, U2>::new(Frame::generate(|o| Frame::generate(|i| at(o, i)))))),
        _ => Box::new(An(Mixer::<U3, U4>::new(Frame::generate(|o| Frame::generate(|i| at(o, i)))))),
    };
    let s = src.seed();
    let input: Sig = (0..ins).map(|c| (0..n).map(|i| rnd11(s.wrapping_add(c as u64 * 77), i as u64)).collect()).collect();
    let y = render(&mut *u, &input, 0, &steps);
    for i in 0..n {
        for o in 0..outs {
            let e: f64 = (0..ins).map(|k| at(o, k) as f64 * input[k][i] as f64).sum();
            ensure!(close(y[o][i] as f64, e, 3.0e-6, 0.0), "matrix", "output {} of a {}x{} matrix is {} instead of {}", o, outs, ins, y[o][i], e);
        }
    }
    // Rotation.
    let (angle, gain) = (src.f32(-7.0, 7.0), src.f32(0.0, 2.0));
    let mut u = h::rotate(angle, gain);
    let two: Sig = vec![input[0].clone(), input[ins - 1].iter().map(|x| x * 0.7).collect()];
    let y = render(&mut u, &two, 0, &steps);
    let (c, d) = ((angle as f64).cos() * gain as f64, (angle as f64).sin() * gain as f64);
    for i in 0..n {
        let (a, b) = (two[0][i] as f64, two[1][i] as f64);
        for (k, e) in [(0, c * a - d * b), (1, d * a + c * b)] {
            ensure!(close(y[k][i] as f64, e, 3.0e-6, 0.0), "rotation", "rotation by {} with gain {} of ({}, {}): output {} is {} instead of {}", angle, gain, a, b, k, y[k][i], e);
        }
    }
    ctx.nontrivial();
    Ok(())
}

#[derive(Clone, Debug)]
struct Rev { kind: u64, room: f32, time: f32, x: f32, y: f32, filter: u64 }

fn gen_rev(src: &mut Src) -> Rev {
    Rev { kind: src.below(4), room: src.f32(10.0, 30.0), time: src.logf32(0.2, 4.0), x: src.f32(0.0, 1.0), y: src.f32(0.0, 1.5), filter: src.below(3) }
}

impl Rev {
    fn unit(&self) -> Un {
        let (room, time, x) = (self.room, self.time, self.x);
        match (self.kind, self.filter) {
            (0, _) => Box::new(h::reverb_stereo(room, time, x)),
            (1, 0) => Box::new(h::reverb2_stereo(room, time, x, self.y, h::pass())),
            (1, _) => Box::new(h::reverb2_stereo(room, time, x, self.y, h::lowpole_hz(9000.0))),
            (2, 0) => Box::new(h::reverb3_stereo(time, x, h::pass())),
            (2, 1) => Box::new(h::reverb3_stereo(time, x, h::lowpole_hz(9000.0))),
            (2, _) => Box::new(h::reverb3_stereo(time, x, h::highshelf_hz(4000.0, 1.0, 0.7))),
            _ => Box::new(h::reverb4_stereo(room.max(15.0), time)),
        }
    }
}

/// Additivity, scaling and (where nothing is modulated) time invariance; both outputs respond; finite.
fn linear(src: &mut Src, ctx: &mut Ctx) -> Res {
    let r = gen_rev(src);
    let sr = *src.pick(&[44100.0, 22050.0, 48000.0, 16000.0]);
    let n = (sr * 0.3) as usize;
    let (sa, sb) = (src.seed(), src.seed());
    let la = src.size(1, 400);
    let lb = src.size(1, 400);
    let shift = src.size(0, 200);
    let g = if src.chance(1, 3) { *src.pick(&[64.0f32, -300.0, 0.001]) } else { src.f32(-2.0, 2.0) };
    ctx.note(format!("{:?} at {} bursts {} {} shift {} gain {}", r, sr, la, lb, shift, g));
    let burst = |s: u64, l: usize, from: usize, both: u64| -> Sig {
        (0..2).map(|c| (0..n).map(|i| if i >= from && i < from + l && (both == 2 || both == c) { rnd11(s.wrapping_add(c), (i - from) as u64) } else { 0.0 }).collect()).collect()
    };
    let ca = src.below(3);
    let (a, b) = (burst(sa, la, 0, ca), burst(sb, lb, shift, 2));
    let ab: Sig = (0..2).map(|c| (0..n).map(|i| a[c][i] * g + b[c][i]).collect()).collect();
    let run = |x: &Sig| -> Sig { let mut u = r.unit(); u.set_sample_rate(sr); render(&mut *u, x, 0, &all_blocks(n)) };
    let (ya, yb, yab) = (run(&a), run(&b), run(&ab));
    let mut heard = [false; 2];
    for c in 0..2 {
        for i in 0..n {
            ensure!(yab[c][i].is_finite(), "finite", "output {} at sample {} is {} in {:?} at {}", c, i, yab[c][i], r, sr);
            let e = ya[c][i] as f64 * g as f64 + yb[c][i] as f64;
            let t = 2.0e-5 * (1.0 + la.max(lb) as f64 * 0.02) * (g.abs() as f64).max(1.0);
            ensure!(close(yab[c][i] as f64, e, t, 1.0e-4), "superposition", "output {} sample {}: {} instead of {} in {:?} at {}", c, i, yab[c][i], e, r, sr);
            heard[c] |= ya[c][i].abs() > 1.0e-6;
        }
    }
    ensure!(heard[0] && heard[1], "both-outputs", "a burst into input {} reaches outputs {:?} within 300 ms in {:?} at {}", ca, heard, r, sr);
    // A reset leaves nothing of the earlier sound behind.
    let mut u = r.unit();
    u.set_sample_rate(sr);
    let len = src.size(64, n);
    render(&mut *u, &ab, 0, &all_blocks(len));
    u.reset();
    let quiet = render(&mut *u, &vec![vec![0.0; n]; 2], 0, &all_blocks(n));
    ensure!(peak(&quiet) <= 1.0e-7, "reset-silence", "{:?} at {} played {} samples, was reset, and then sounds at level {} without input", r, sr, len, peak(&quiet));
    if r.kind != 1 {
        let y2 = run(&burst(sa, la, shift, ca));
        for c in 0..2 {
            for i in 0..n - shift {
                ensure!(close(y2[c][i + shift] as f64, ya[c][i] as f64, 1.0e-5, 1.0e-4), "time-invariance", "output {} sample {}: {} instead of {} when the input comes {} later in {:?} at {}", c, i, y2[c][i + shift], ya[c][i], shift, r, sr);
            }
        }
    }
    ctx.nontrivial();
    Ok(())
}

/// Impulse response to both channels.
fn impulse(r: &Rev, sr: f64, seconds: f64) -> Sig {
    let mut u = r.unit();
    u.set_sample_rate(sr);
    let n = (sr * seconds) as usize;
    let x: Sig = (0..2).map(|_| (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect()).collect();
    render(&mut *u, &x, 0, &all_blocks(n))
}

/// When each output first answers each input is a time, the same at every sample rate.
fn onset(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = gen_rev(src);
    r.filter = 0;
    let (s1, s2) = (*src.pick(&[44100.0, 22050.0, 48000.0]), *src.pick(&[88200.0, 96000.0, 32000.0, 44100.0, 24000.0]));
    let input = src.below(2) as usize;
    ctx.note(format!("{:?} at {} and {} input {}", r, s1, s2, input));
    let times = |sr: f64| -> Vec<f64> {
        let mut u = r.unit();
        u.set_sample_rate(sr);
        let n = (sr * 0.3) as usize;
        let x: Sig = (0..2).map(|c| (0..n).map(|i| if i == 64 && c == input { 1.0 } else { 0.0 }).collect()).collect();
        let y = render(&mut *u, &x, 0, &all_blocks(n));
        y.iter().map(|c| { let p = c.iter().fold(0.0f32, |a, b| a.max(b.abs())); (c.iter().position(|v| v.abs() > 1.0e-3 * p).unwrap_or(0) as f64 - 64.0) / sr }).collect()
    };
    let (a, b) = (times(s1), times(s2));
    let tol = 6.0 / s1.min(s2);
    for o in 0..2 {
        ensure!((a[o] - b[o]).abs() <= tol, "onset", "output {} of {:?} answers input {} after {} s at {} but after {} s at {}", o, r, input, a[o], s1, b[o], s2);
    }
    if s1 != s2 { ctx.nontrivial(); }
    Ok(())
}

/// Time to decay by 60 dB, from the slope between -5 and -25 dB of the energy decay curve below about 2 kHz.
fn t60(y: &Sig, sr: f64) -> Option<f64> {
    let n = y[0].len();
    let k = 1.0 - (-2.0 * std::f64::consts::PI * 1500.0 / sr).exp();
    let mut e = vec![0.0f64; n];
    for c in 0..2 {
        let (mut s, mut t) = (0.0, 0.0);
        for i in 0..n { s += k * (y[c][i] as f64 - s); t += k * (s - t); e[i] += t * t; }
    }
    for i in (0..n - 1).rev() { e[i] += e[i + 1]; }
    let at = |db: f64| e.iter().position(|x| 10.0 * (x / e[0]).log10() < db);
    // The tail must be captured for the integral to be meaningful.
    if 10.0 * (e[n * 9 / 10] / e[0]).log10() > -32.0 { return None; }
    Some((at(-25.0)? - at(-5.0)?) as f64 / sr * 3.0)
}

fn decay(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = gen_rev(src);
    r.filter = 0;
    r.time = src.logf32(0.4, 1.6);
    if r.kind == 0 { r.room = src.f32(5.0, 20.0); }
    if r.kind == 1 { r.y = src.f32(0.0, 0.5); }
    let sr = *src.pick(&[22050.0, 32000.0, 44100.0]);
    let mode = src.below(3);
    ctx.note(format!("{:?} at {} mode {}", r, sr, mode));
    let y = impulse(&r, sr, r.time as f64 * 4.0 + 0.6);
    for c in 0..2 { for (i, v) in y[c].iter().enumerate() {
        ensure!(v.is_finite() && v.abs() < 4.0, "bounded", "impulse response of {:?} at {} is {} at sample {}", r, sr, v, i);
    } }
    let Some(t) = t60(&y, sr) else { return fail("decay", format!("the impulse response of {:?} at {} has not decayed by 32 dB after {} s", r, sr, r.time as f64 * 3.6 + 0.54)); };
    let q = t / r.time as f64;
    // The stated time is approximate: what is measured is about twice as much (lines are longer than the nominal loop) and more
    // where the reverb fades in slowly.
    let (lo, hi) = [(1.5, 3.0), (1.9, 5.0), (1.75, 9.0), (2.3, 9.0)][r.kind as usize];
    ensure!(q > lo && q < hi, "reverberation-time", "{:?} at {} decays by 60 dB in {} s", r, sr, t);
    match mode {
        0 => {
            // The decay does not depend on the sample rate.
            let sr2 = *src.pick(&[16000.0, 48000.0, 27000.0]);
            if let Some(t2) = t60(&impulse(&r, sr2, r.time as f64 * 4.0 + 0.6), sr2) {
                ensure!(close(t, t2, 0.02, 0.2), "rate-dependence", "{:?} decays in {} s at {} but in {} s at {}", r, t, sr, t2, sr2);
            }
        }
        1 => {
            // It grows with the requested time.
            let mut r2 = r.clone();
            r2.time = r.time * 2.0;
            if let Some(t2) = t60(&impulse(&r2, sr, r2.time as f64 * 4.0 + 0.6), sr) {
                ensure!(t2 > t * 1.25 && t2 < t * 2.3, "time-dependence", "{:?} at {} decays in {} s but in {} s with twice the time", r, sr, t, t2);
            }
        }
        _ => if r.kind == 0 {
            // A room twice as large takes twice as long to answer.
            let onset = |y: &Sig| (0..2).map(|c| y[c].iter().position(|x| x.abs() > 1.0e-6).unwrap_or(0)).min().unwrap();
            let mut r2 = r.clone();
            r2.room = r.room * 2.0;
            let (a, b) = (onset(&y), onset(&impulse(&r2, sr, 0.5)));
            ensure!(a > 0 && (b as f64 - 2.0 * a as f64).abs() <= 8.0, "room-size", "{:?} at {} answers after {} samples, with twice the room size after {}", r, sr, a, b);
        },
    }
    ctx.nontrivial();
    Ok(())
}

/// A larger room takes longer to answer.
fn rooms(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = gen_rev(src);
    r.kind = *src.pick(&[0, 1, 3]);
    r.filter = 0;
    r.y = src.f32(0.0, 0.5);
    let sr = *src.pick(&[22050.0, 32000.0, 44100.0]);
    let lo = if r.kind == 3 { 15.0 } else { 10.0 };
    r.room = if src.bool() { src.f32(lo, lo + 5.0) } else { src.f32(lo, 28.0) };
    let mut r2 = r.clone();
    r2.room = if src.bool() { r.room + 2.0 } else { src.f32(r.room + 2.0, 30.0) };
    ctx.note(format!("{:?} at {} against room size {}", r, sr, r2.room));
    let onset = |r: &Rev| { let y = impulse(r, sr, 0.3); (0..2).map(|c| y[c].iter().position(|x| x.abs() > 1.0e-6).unwrap_or(0)).min().unwrap() };
    let (a, b) = (onset(&r), onset(&r2));
    ensure!(a > 0 && b > a, "room-growth", "{:?} at {} answers after {} samples, with room size {} after {}", r, sr, a, r2.room, b);
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C34",
        rule: "a case is a pan, mixing matrix or reverb with random parameters, sample rate and input; non-trivial when more than one sample was compared (reverb cases: always when compared)",
        assumptions: &["reverberation times are documented as approximate: only proportions are required"],
        subs: vec![
            Sub { name: "panning", quick: 200000, thorough: 20000000, f: panning },
            Sub { name: "mixing", quick: 100000, thorough: 10000000, f: mixing },
            Sub { name: "linear", quick: 600, thorough: 30000, f: linear },
            Sub { name: "onset", quick: 400, thorough: 30000, f: onset },
            Sub { name: "rooms", quick: 400, thorough: 12000, f: rooms },
            Sub { name: "decay", quick: 250, thorough: 12000, f: decay },
        ],
    });
}
