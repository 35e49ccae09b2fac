//! C14: wave editing against plain arrays of samples.
use fundsp::hacker as h;
use fundsp::hacker::Wave;
use vfcore::*;

#[derive(Clone)]
struct M { c: Vec<Vec<f32>>, sr: f64 }
impl M {
    fn len(&self) -> usize { self.c.first().map(|v| v.len()).unwrap_or(0) }
    fn peak(&self) -> f32 { self.c.iter().flatten().fold(0.0, |a, x| if x.abs() > a { x.abs() } else { a }) }
}

fn samples(src: &mut Src, n: usize) -> Vec<f32> {
    let seed = src.seed();
    let k = src.below(4);
    (0..n).map(|i| { let r = render::rnd11(seed, i as u64); match k { 0 => r, 1 => r * 1000.0, 2 => (i % 7) as f32 / 8.0, _ => if i % 3 == 0 { 0.0 } else { r * 1.0e-6 } } }).collect()
}
fn smooth5(x: f64) -> f64 { ((x * 6.0 - 15.0) * x + 10.0) * x * x * x }

fn check(w: &Wave, m: &M, log: &str) -> Res {
    ensure!(w.channels() == m.c.len(), "channels", "{} channels, should be {}: {}", w.channels(), m.c.len(), log);
    ensure!(w.len() == m.len() && w.length() == m.len(), "length", "length {} ({}), should be {}: {}", w.len(), w.length(), m.len(), log);
    ensure!(w.is_empty() == (m.len() == 0), "is_empty", "is_empty is {}: {}", w.is_empty(), log);
    ensure!(w.sample_rate() == m.sr, "sample_rate", "sample rate {}, should be {}: {}", w.sample_rate(), m.sr, log);
    ensure!((w.duration() - m.len() as f64 / m.sr).abs() <= 1.0e-12 * (1.0 + w.duration()), "duration", "duration {}: {}", w.duration(), log);
    for c in 0..m.c.len() {
        ensure!(w.channel(c).len() == m.len(), "channel-length", "channel {} has {} samples, should have {}: {}", c, w.channel(c).len(), m.len(), log);
        for i in 0..m.len() {
            let (a, b) = (w.at(c, i), m.c[c][i]);
            ensure!(same(a, w.channel(c)[i]), "channel", "channel {} sample {} reads {} and {}: {}", c, i, a, w.channel(c)[i], log);
            ensure!(close(a as f64, b as f64, 1.0e-35, 4.0e-6), "contents", "channel {} sample {} is {}, should be {}: {}", c, i, a, b, log);
        }
    }
    let p = m.peak();
    ensure!(close(w.amplitude() as f64, p as f64, 1.0e-35, 4.0e-6), "amplitude", "amplitude {}, should be {}: {}", w.amplitude(), p, log);
    Ok(())
}

fn edits(src: &mut Src, ctx: &mut Ctx) -> Res { history(src, ctx, 1) }
/// The same with waves of minutes.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res { let z = 500 << src.below(5); history(src, ctx, z) }

fn history(src: &mut Src, ctx: &mut Ctx, z: usize) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 8000.0, 11025.0, 1000.0, 1.0, 22050.5]);
    let ch = src.size(0, 3);
    let n0 = src.size(0, 40) * z;
    let mut log;
    let (mut w, mut m) = match src.below(4) {
        0 => { log = format!("new({}, {})", ch, sr); (Wave::new(ch, sr), M { c: vec![vec![]; ch], sr }) }
        1 => { log = format!("with_capacity({}, {}, {})", ch, sr, n0); (Wave::with_capacity(ch, sr, n0), M { c: vec![vec![]; ch], sr }) }
        2 => {
            let ch = ch + 1;
            // Off-grid durations round to the nearest sample.
            let d = (n0 as f64 + *src.pick(&[0.0, 0.3, -0.3])).max(0.0) / sr;
            log = format!("zero({}, {}, {})", ch, sr, d);
            (Wave::zero(ch, sr, d), M { c: vec![vec![0.0; n0]; ch], sr })
        }
        _ => { let v = samples(src, n0); log = if z == 1 { format!("from_samples({}, {:?})", sr, v) } else { format!("from_samples({}, {} samples)", sr, n0) }; (Wave::from_samples(sr, &v), M { c: vec![v], sr }) }
    };
    check(&w, &m, &log)?;
    let ops = src.size(1, if z == 1 { 14 } else { 4 });
    let mut changed = 0;
    for _ in 0..ops {
        let (nc, n) = (m.c.len(), m.len());
        let before = m.clone();
        let kept = w.clone();
        match src.below(20) {
            0 if n > 0 => { let (c, i) = (src.size(0, nc - 1), src.size(0, n - 1)); let v = src.f32(-2.0, 2.0); w.set(c, i, v); m.c[c][i] = v; log.push_str(&format!("; set({}, {}, {})", c, i, v)); }
            1 if n > 0 => { let (c, i) = (src.size(0, nc - 1), src.size(0, n - 1)); let v = src.f32(-2.0, 2.0); w.mix(c, i, v); m.c[c][i] += v; log.push_str(&format!("; mix({}, {}, {})", c, i, v)); }
            2 | 3 if nc > 0 => { let k = src.size(0, 60) * z; w.resize(k); for c in &mut m.c { c.resize(k, 0.0); } log.push_str(&format!("; resize({})", k)); }
            4 => { let k = if nc == 0 { src.size(0, 40) * z } else { n }; let v = samples(src, k); w.push_channel(&v); m.c.push(v); log.push_str(&format!("; push_channel({} samples)", k)); }
            5 => { let k = if nc == 0 { src.size(0, 40) * z } else { n }; let v = samples(src, k); let at = src.size(0, nc); w.insert_channel(at, &v); m.c.insert(at, v); log.push_str(&format!("; insert_channel({}, {} samples)", at, k)); }
            6 if nc > 0 => {
                let at = src.size(0, nc - 1);
                let a = w.remove_channel(at);
                let b = m.c.remove(at);
                log.push_str(&format!("; remove_channel({})", at));
                ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| close(*x as f64, *y as f64, 1.0e-35, 4.0e-6)), "removed", "the removed channel differs: {}", log);
            }
            7 | 8 if nc > 0 => {
                let k = src.size(0, 50) * z;
                let v = samples(src, k);
                let c = src.size(0, nc - 1);
                let off = if src.chance(1, 20) { *src.pick(&[-1000000isize, 1000000, (1 << 32) - 20, -(1 << 32) - 20, 1 << 40, -(1 << 40), isize::MIN]) } else { src.int(-60, 60) as isize };
                w.mix_channel(c, off, &v);
                for (i, x) in v.iter().enumerate() { let j = off.saturating_add(i as isize); if j >= 0 && (j as usize) < n { m.c[c][j as usize] += x; } }
                log.push_str(&format!("; mix_channel({}, {}, {} samples)", c, off, k));
            }
            9 | 10 if nc > 0 => {
                let mut o = Wave::new(0, sr * src.pick(&[1.0, 2.0]));
                let k = src.size(0, 30) * z;
                for c in 0..nc { let v = samples(src, k); o.push_channel(&v); m.c[c].extend(v); }
                if src.chance(1, 8) { m = before.clone(); o = w.clone(); for c in 0..nc { let v = m.c[c].clone(); m.c[c].extend(v); } }
                let copy = o.clone();
                w.append(&o);
                ensure!((0..nc).all(|c| copy.channel(c) == o.channel(c)), "append-source", "append changed its source: {}", log);
                log.push_str(&format!("; append({} samples)", o.len()));
            }
            11 | 12 | 13 if nc > 0 => {
                let start = if src.chance(1, 15) { *src.pick(&[-100000isize, 100000, isize::MIN / 2, isize::MAX / 2]) } else { src.int(-50, 70) as isize * z as isize };
                let len = if src.chance(1, 15) { *src.pick(&[100000usize, 1usize << 40, isize::MAX as usize / 4]) } else { src.size(0, 80) * z };
                w.retain(start, len);
                for c in &mut m.c { *c = c.iter().enumerate().filter(|(i, _)| { let i = *i as i128; i >= start as i128 && i < start as i128 + len as i128 }).map(|(_, x)| *x).collect(); }
                log.push_str(&format!("; retain({}, {})", start, len));
            }
            14 => { let a = *src.pick(&[0.0, 1.0, -1.0, 0.5, 3.7]); w.amplify(a); for x in m.c.iter_mut().flatten() { *x *= a; } log.push_str(&format!("; amplify({})", a)); }
            15 => { w.normalize(); let p = m.peak(); if p > 0.0 { for x in m.c.iter_mut().flatten() { *x /= p; } } log.push_str("; normalize()"); }
            16 => {
                let t = ((src.size(0, 60) * z) as f64 + *src.pick(&[0.0, 0.25, -0.25])).max(0.0) / sr;
                let which = src.below(3);
                let k = ((t * sr).round() as usize).min(n);
                match which { 0 => w.fade_in(t), 1 => w.fade_out(t), _ => w.fade(t) }
                for c in &mut m.c {
                    for i in 0..k {
                        let a = smooth5((i + 1) as f64 / (k + 1) as f64) as f32;
                        if which != 1 { c[i] *= a; }
                        if which != 0 { c[n - 1 - i] *= a; }
                    }
                }
                log.push_str(&format!("; {}({})", ["fade_in", "fade_out", "fade"][which as usize], t));
            }
            17 => { let v = src.f32(-1.0, 1.0); w.push(v); for c in &mut m.c { c.push(v); } log.push_str(&format!("; push({})", v)); }
            18 if nc == 2 => { let v = (src.f32(-1.0, 1.0), src.f32(-1.0, 1.0)); w.push(v); m.c[0].push(v.0); m.c[1].push(v.1); log.push_str(&format!("; push({:?})", v)); }
            18 if nc == 3 => { let v = (src.f32(-1.0, 1.0), src.f32(-1.0, 1.0), 0.25); w.push(v); m.c[0].push(v.0); m.c[1].push(v.1); m.c[2].push(v.2); log.push_str(&format!("; push({:?})", v)); }
            _ => {
                if n > 0 { let (c, i) = (src.size(0, nc - 1), src.size(0, n - 1)); w.channel_mut(c)[i] = 0.75; m.c[c][i] = 0.75; log.push_str(&format!("; channel_mut({})[{}] = 0.75", c, i)); }
                let r = *src.pick(&[44100.0, 500.0]);
                w.set_sample_rate(r);
                m.sr = r;
                log.push_str(&format!("; set_sample_rate({})", r));
                // Fades use the rate, so go back to the one in use.
                w.set_sample_rate(sr);
                m.sr = sr;
            }
        }
        check(&w, &m, &log)?;
        // Copies are independent.
        check(&kept, &before, &format!("copy made before the last step of: {}", log))?;
        if m.c != before.c { changed += 1; }
        // Rounding does not accumulate: the next operation starts from the actual contents.
        for c in 0..m.c.len() { m.c[c] = w.channel(c).clone(); }
    }
    ctx.note(&log);
    if changed > 1 { ctx.nontrivial(); }
    let _ = h::min(1, 2);
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C14",
        rule: "a wave and a history of up to 14 editing operations, checked after each one against per-channel arrays, including a copy made before the operation; non-trivial when at least two operations changed the contents",
        assumptions: &["amplitudes are not subnormal or infinite", "operations that need channels are given a wave that has some"],
        subs: vec![Sub { name: "edits", quick: 2000000, thorough: 30000000, f: edits }, Sub { name: "large", quick: 2000, thorough: 10000, f: large }],
    })
}
