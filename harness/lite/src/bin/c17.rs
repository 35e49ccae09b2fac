//! C17: the limiter.
use fundsp::hacker as h;
use fundsp::hacker::AudioUnit;
use vfcore::render::{describe_steps, gen_steps, rnd11, Sig};
use vfcore::*;

fn gen_audio(src: &mut Src, n: usize, top: f64) -> (Vec<f32>, String) {
    let kind = src.below(8);
    let amp = if src.chance(1, 10) { src.logf(1.0e3, 1.0e25) } else { src.logf(0.05, 60.0) }.min(top) as f32;
    let seed = src.seed();
    let at = src.size(0, n);
    let per = src.size(1, 200);
    let v: Vec<f32> = (0..n).map(|i| {
        let r = rnd11(seed, i as u64);
        match kind {
            0 => if i == at { amp } else { 0.0 },
            1 => if i >= at { amp } else { 0.2 * r },
            2 => amp * r,
            3 => amp * i as f32 / n as f32 * if r < 0.0 { -1.0 } else { 1.0 },
            4 => if (mix(seed ^ i as u64) % per as u64) == 0 { amp * r } else { r * 0.3 },
            5 => amp * (std::f32::consts::TAU * i as f32 / (per as f32 + 1.0)).sin(),
            6 => if (i / per) % 2 == 0 { amp } else { -amp * 0.01 },
            _ => if i < at { amp } else { 0.1 * r },
        }
    }).collect();
    (v, format!("kind {} peak {} at {} period {}", kind, amp, at, per))
}

fn limit(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 8000.0, 96000.0, 22050.0]);
    let stereo = src.bool();
    let la = if src.chance(1, 400) { src.logf(700.0, 50000.0) } else if src.chance(1, 4) { src.logf(0.2, 60.0) } else { src.logf(10.0, 700.0) };
    let lr = src.logf(0.2, 3000.0);
    let (attack, release) = ((la / sr) as f32, (lr / sr) as f32);
    let exact = attack as f64 * sr;
    if (exact - exact.floor() - 0.5).abs() < 0.01 { return Ok(()); }
    let len = (exact.round() as usize).max(1);
    let n = len + src.size(1, 1500);
    let ch = if stereo { 2 } else { 1 };
    // Half of the stereo cases carry a pilot tone through which the gain is measured.
    let pilot = stereo && src.bool();
    let quiet = src.chance(1, 5);
    let top = if quiet { 0.9 } else { 1.0e30 };
    let mut x: Sig = vec![];
    let mut log = format!("limiter{} attack {} release {} samples at {}", if stereo { "_stereo" } else { "" }, la, lr, sr);
    for c in 0..ch {
        if pilot && c == 1 { x.push(vec![0.125; n]); log.push_str("; pilot"); continue; }
        let (v, d) = gen_audio(src, n, top);
        log.push_str("; ");
        log.push_str(&d);
        x.push(v);
    }
    let mut u: Box<dyn AudioUnit> = if stereo { Box::new(h::limiter_stereo(attack, release)) } else { Box::new(h::limiter(attack, release)) };
    if src.bool() {
        let r = *src.pick(&[44100.0, 8000.0, 192000.0]);
        u.set_sample_rate(r);
        let m = src.size(1, 400);
        let y: Sig = (0..ch).map(|c| (0..m).map(|i| 9.0 * rnd11(c as u64, i as u64)).collect()).collect();
        let st = gen_steps(src, m);
        render::render(&mut *u, &y, 0, &st);
        log.push_str(&format!("; after {} samples at {}", m, r));
        if src.bool() { u.set_sample_rate(sr); u.reset(); } else { u.reset(); u.set_sample_rate(sr); }
    } else {
        u.set_sample_rate(sr);
        if src.bool() { u.allocate(); }
    }
    let st = gen_steps(src, n);
    log.push_str(&format!("; {}", describe_steps(&st)));
    ctx.note(&log);
    let y = render::render(&mut *u, &x, 0, &st);
    let amp: Vec<f32> = (0..n).map(|i| x.iter().fold(0.0f32, |a, c| a.max(c[i].abs()))).collect();
    if amp.iter().any(|a| *a > 1.0) { ctx.nontrivial(); ctx.label("over full scale"); }
    if quiet { ctx.nontrivial(); ctx.label("within range"); }
    let mut so_far = 0.0f32;
    let mut last: Option<f64> = None;
    for i in 0..n {
        so_far = so_far.max(amp[i]);
        for c in 0..ch {
            let v = y[c][i];
            ensure!(v.abs() <= 1.0 + 1.0e-6, "ceiling", "output {} of channel {} is {}: {}", i, c, v, log);
            if i < len {
                ensure!(v == 0.0, "look-ahead", "output {} of channel {} is {} before the look-ahead of {}: {}", i, c, v, len, log);
                continue;
            }
            let s = x[c][i - len];
            // Exactly the input of the look-ahead ago, with a gain that never amplifies.
            ensure!((s == 0.0 && v == 0.0) || (s * v >= 0.0 && v.abs() <= s.abs() * 1.000001), "delay", "output {} of channel {} is {}, the input was {}: {}", i, c, v, s, log);
            // The gain is never lower than the highest peak so far calls for.
            let low = s.abs() as f64 / (1.0f64).max(1.12 * so_far as f64);
            ensure!(v.abs() as f64 >= low * 0.999 - 1.0e-37, "overlimited", "output {} of channel {} is {}, the input was {} and the peak so far {}: {}", i, c, v, s, so_far, log);
        }
        if i < len { continue; }
        if ch == 2 {
            let (a, b) = ((y[0][i] as f64) * x[1][i - len] as f64, (y[1][i] as f64) * x[0][i - len] as f64);
            ensure!((a - b).abs() <= 1.0e-5 * a.abs().max(b.abs()) + 1.0e-37, "linked gain", "gain of output {} differs: {} for {}, {} for {}: {}", i, y[0][i], x[0][i - len], y[1][i], x[1][i - len], log);
        }
        if so_far <= 0.9 {
            for c in 0..ch { ensure!((y[c][i] - x[c][i - len]).abs() <= 1.0e-6, "transparent", "output {} of channel {} is {}, the input was {}: {}", i, c, y[c][i], x[c][i - len], log); }
        }
        if pilot && so_far < 1.0e4 {
            // The gain moves gradually, ahead of the peak and after it.
            let l = x[1][i - len] as f64 / y[1][i] as f64;
            if let Some(p) = last {
                // The slope of the smoothing filter as a fraction of its input range.
                let reach = 1.1 * so_far as f64;
                let up = 2.0 / len as f64;
                let down = 2.0 / lr;
                if lr >= 60.0 && len >= 60 {
                    ensure!(l - p <= up * reach + 1.0e-4 * reach, "attack", "the gain reduction jumps from {} to {} at output {}: {}", p, l, i, log);
                    ensure!(p - l <= down * reach + 1.0e-4 * reach, "release", "the gain reduction falls from {} to {} at output {}: {}", p, l, i, log);
                }
            }
            last = Some(l);
        }
    }
    Ok(())
}

/// After a loud passage the gain returns to unity, at a pace set by the release time.
fn recovery(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 8000.0]);
    let la = src.logf(60.0, 300.0);
    let lr = src.logf(60.0, 600.0);
    let loud = src.size(1, 400);
    let amp = src.logf(1.5, 50.0) as f32;
    let half = 0.4 * lr;
    let n = loud + la as usize + (lr * 14.0) as usize + 10;
    let mut u: Box<dyn AudioUnit> = Box::new(h::limiter_stereo((la / sr) as f32, (lr / sr) as f32));
    u.set_sample_rate(sr);
    let x: Sig = vec![(0..n).map(|i| if i < loud { amp } else { 0.0 }).collect(), vec![0.125; n]];
    let st = gen_steps(src, n);
    let y = render::render(&mut *u, &x, 0, &st);
    let log = format!("{} loud samples of {} into attack {} release {} at {}: {}", loud, amp, la, lr, sr, describe_steps(&st));
    ctx.note(&log);
    ctx.nontrivial();
    let len = ((la / sr) as f32 as f64 * sr).round() as usize;
    let red = |i: usize| 0.125 / y[1][i] as f64;
    ensure!((red(n - 1) - 1.0).abs() < 0.02, "recovery", "the gain is still {} at the end: {}", 1.0 / red(n - 1), log);
    // The reduction starts to fall when the last loud sample has left, and covers half of its way in 0.4 release times.
    let t0 = loud + len;
    let top = red(t0 - 1) - 1.0;
    if t0 > len && top > 0.2 {
        let at = (t0..n).find(|i| red(*i) - 1.0 < 0.5 * top).unwrap_or(n) - t0;
        ensure!((at as f64) > 0.8 * half - 3.0 && (at as f64) < 1.25 * half + 3.0, "release time", "half of the way took {} samples, should take about {}: {}", at, half, log);
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C17",
        rule: "impulses, steps, ramps, noise, bursts and tones up to 1e25 into mono and stereo limiters at random look-ahead and release times, sample rates, block partitions and after an earlier life; non-trivial when the input exceeds full scale, or was generated to stay within range",
        assumptions: &["finite input below 1e30", "ceiling 1 with tolerance 1e-6", "the gain slew and recovery bounds are for look-ahead and release of at least 60 samples"],
        subs: vec![
            Sub { name: "limit", quick: 300000, thorough: 20000000, f: limit },
            Sub { name: "recovery", quick: 20000, thorough: 200000, f: recovery },
        ],
    })
}
