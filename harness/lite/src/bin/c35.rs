//! C35: the granular synthesizer plays exactly the grains its voices call for.
use fundsp::granular::Granular;
use fundsp::hacker as h;
use fundsp::hacker::{AudioUnit, Fade, Sequencer};
use std::sync::{Arc, Mutex};
use vfcore::render::{all_blocks, describe_steps, gen_steps, render, Sig};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
/// The texture generator (in the funutd crate) does not terminate for a few seeds in a million; none of them is among these.
const SEEDS: u64 = 3000;
/// What the generator function was asked: time, beat, voice and texture values.
type Call = (f64, f32, f32, [f32; 3]);

#[derive(Clone, Debug)]
struct Par { outs: usize, voices: usize, beat: f32, beats: usize, seed: u64, r0: f32, r1: f32, jitter: f32, len: f32, spread: f32, env: f32 }

impl Par {
    fn gen(src: &mut Src) -> Par {
        Par {
            outs: src.size(1, 3), voices: src.size(1, 6), beat: src.logf32(0.02, 2.0), beats: src.size(1, 16), seed: src.below(SEEDS),
            r0: src.f32(0.01, 0.3), r1: src.f32(0.01, 0.3), jitter: if src.bool() { 0.0 } else { src.f32(0.0, 0.05) },
            len: src.logf32(0.002, 0.05), spread: if src.bool() { 0.0 } else { src.f32(0.0, 2.0) }, env: if src.chance(1, 5) { 0.0 } else { src.f32(0.01, 0.9) },
        }
    }
    /// Grain and envelope length at a time. Even grains of equal length end when the next one has faded in.
    fn lengths(&self, t: f64) -> (f32, f32) {
        let g = self.len * (1.0 + self.spread * (t * 1234.567).fract() as f32);
        (g, g * self.env)
    }
    fn grain(&self, b: f32, v: f32, x: [f32; 3]) -> Un {
        let s = h::sine_hz(h::xerp11(100.0, 3000.0, x[0])).phase(0.0) * h::dc(1.0 + 0.5 * x[1]);
        match self.outs {
            1 => Box::new(s + (h::dc(0.1 * v))),
            2 => Box::new(s >> h::pan(v)),
            _ => Box::new(s | h::dc(x[2]) | h::dc(b.fract())),
        }
    }
    fn build(&self, calls: &Arc<Mutex<Vec<Call>>>) -> Un {
        let (p, calls) = (self.clone(), calls.clone());
        Box::new(Granular::new(self.outs, self.voices, self.beat, self.beats, self.seed, self.r0, self.r1, self.jitter, move |t, b, v, x, y, z| {
            calls.lock().unwrap().push((t, b, v, [x, y, z]));
            let (g, e) = p.lengths(t);
            (g, e, p.grain(b, v, [x, y, z]))
        }))
    }
    /// Voice indicator of a voice.
    fn voice(&self, i: usize) -> f32 { if self.voices == 1 { 0.0 } else { (i as f64 / (self.voices - 1) as f64 * 2.0 - 1.0) as f32 } }
}

/// Grains come when they should, know what they should, and sound as if they had been given to a sequencer.
fn schedule(src: &mut Src, ctx: &mut Ctx, long: bool) -> Res {
    let mut p = Par::gen(src);
    let mut sr = *src.pick(&[44100.0, 48000.0, 22050.0, 16000.0, 96000.0]);
    let mut n = src.size(1, 6000);
    if long {
        // Minutes of long grains.
        p.len *= src.f32(30.0, 600.0);
        sr = *src.pick(&[1000.0, 4410.0, 8000.0]);
        n *= 20;
    }
    let calls = Arc::new(Mutex::new(vec![]));
    let mut u = p.build(&calls);
    let early = src.bool();
    if early { u.set_sample_rate(sr); }
    let mut how = "fresh";
    if src.chance(1, 3) {
        let m = src.size(1, 500);
        render(&mut *u, &vec![], 0, &gen_steps(src, m));
        u.reset();
        how = "after reset";
    }
    if !early { u.set_sample_rate(sr); }
    if src.chance(1, 4) { u = u.clone(); }
    calls.lock().unwrap().clear();
    let steps = gen_steps(src, n);
    ctx.note(format!("{:?} at {} {} {}", p, sr, how, describe_steps(&steps)));
    ctx.label(how);
    ensure!(u.inputs() == 0 && u.outputs() == p.outs, "channels", "{} inputs and {} outputs in {:?}", u.inputs(), u.outputs(), p);
    let got = render(&mut *u, &vec![], 0, &steps);
    let calls = calls.lock().unwrap().clone();
    let end = n as f64 / sr;
    let mut seq = Sequencer::new(false, p.outs);
    seq.set_sample_rate(sr);
    let (g0, e0) = p.lengths(0.0);
    let mut total = 0;
    for i in 0..p.voices {
        let mine: Vec<&Call> = calls.iter().filter(|c| (c.2 - p.voice(i)).abs() < 1.0e-5).collect();
        let mut t = (g0 as f64 - e0 as f64) * i as f64 / p.voices as f64;
        for (k, c) in mine.iter().enumerate() {
            ensure!((c.0 - t).abs() <= 1.0e-9 * (1.0 + t), "grain-time", "grain {} of voice {} is at {} instead of {} in {:?} at {} {}", k, i, c.0, t, p, sr, how);
            ensure!(close(c.1 as f64, t / p.beat as f64, 1.0e-4, 1.0e-5), "grain-beat", "grain {} of voice {} at time {} is told beat {} in {:?}", k, i, t, c.1, p);
            ensure!(c.3.iter().all(|x| *x >= -1.0 && *x <= 1.0), "grain-values", "texture values {:?} in {:?}", c.3, p);
            let (g, e) = p.lengths(c.0);
            seq.push_duration(c.0, g as f64, Fade::Power, e as f64, e as f64, p.grain(c.1, c.2, c.3));
            t = c.0 + g as f64 - e as f64;
        }
        ensure!(t >= end - 1.0e-9 * (1.0 + end), "grain-missing", "voice {} has {} grains after {} s: the next is due at {} in {:?} at {} {}", i, mine.len(), end, t, p, sr, how);
        if let Some(c) = mine.last() { ensure!(c.0 <= end + 64.0 / sr + 1.0e-9 * (1.0 + end), "grain-early", "voice {} has a grain at {} after {} s in {:?}", i, c.0, end, p); }
        total += mine.len();
    }
    ensure!(total == calls.len(), "grain-voice", "{} grains belong to no voice in {:?}", calls.len() - total, p);
    // The same call schedule: a sequencer may round fades shorter than a sample in blocks.
    let want = render(&mut seq, &vec![], 0, &steps);
    for c in 0..p.outs {
        for i in 0..n {
            ensure!(close(got[c][i] as f64, want[c][i] as f64, 1.0e-4, 1.0e-4), "grain-sound", "output {} sample {} is {} but the {} grains sound {} in {:?} at {} {} {}", c, i, got[c][i], total, want[c][i], p, sr, how, describe_steps(&steps));
        }
    }
    if total > p.voices { ctx.nontrivial(); }
    Ok(())
}

/// The texture path: the same seed gives the same grains, and without jitter the helix closes after every cycle.
fn texture(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p = Par::gen(src);
    p.outs = 1;
    let sr = 8000.0;
    p.jitter = 0.0;
    p.spread = 0.0;
    // A whole number of grains in each cycle; the voices share one helix.
    let per = src.size(2, 40);
    p.len = src.f32(0.004, 0.02);
    let hop = { let (g, e) = p.lengths(0.0); g as f64 - e as f64 };
    p.beat = (hop * per as f64 / p.beats as f64) as f32;
    if p.beat < 1.0e-3 { return Ok(()); }
    let same = src.bool();
    if same { p.r1 = p.r0; }
    let cycle = p.beat as f64 * p.beats as f64;
    let n = ((cycle * 2.2 * sr) as usize).min(40000);
    let run = |p: &Par| -> (Vec<Call>, Sig) {
        let calls = Arc::new(Mutex::new(vec![]));
        let mut u = p.build(&calls);
        u.set_sample_rate(sr);
        let y = render(&mut *u, &vec![], 0, &all_blocks(n));
        let c = calls.lock().unwrap().clone();
        (c, y)
    };
    let (a, ya) = run(&p);
    ctx.note(format!("{:?} with {} grains in a cycle", p, per));
    let (b, yb) = run(&p);
    ensure!(a == b && ya == yb, "replay", "two synthesizers with the same seed differ: {:?}", p);
    let mut q = p.clone();
    q.seed = (p.seed + 1 + src.below(SEEDS - 1)) % SEEDS;
    let (c, _) = run(&q);
    ensure!(a.len() < 6 || a.iter().zip(&c).any(|(x, y)| x.3 != y.3), "seed", "texture seeds {} and {} give the same values: {:?}", p.seed, q.seed, p);
    // Rounding may move a point in a very fine texture, but not most points in most textures.
    let (mut off, mut all, mut bad) = (0, 0, 0);
    for k in 0..3 {
        let mut r = p.clone();
        r.seed = (p.seed + k) % SEEDS;
        let calls = if k == 0 { a.clone() } else { run(&r).0 };
        let first: Vec<&Call> = calls.iter().filter(|c| (c.2 - p.voice(0)).abs() < 1.0e-5).collect();
        let o = (per..first.len()).filter(|k| (0..3).map(|j| (first[*k].3[j] - first[*k - per].3[j]).abs()).fold(0.0, f32::max) > 0.05).count();
        all = first.len().saturating_sub(per);
        if o * 4 > all * 3 { bad += 1; off = o; }
    }
    ensure!(all < 8 || bad < 3, "cycle", "{} of {} grains differ from those a cycle of {} grains earlier in {:?} (and with the next two texture seeds)", off, all, per, p);
    if all >= 8 { ctx.nontrivial(); }
    if same && p.voices > 1 { ctx.label("one radius"); }
    Ok(())
}

/// Grains get phases of their own: successive noise grains are different noise.
fn phases(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = 8000.0;
    let len = src.size(40, 200);
    let seed = src.below(SEEDS);
    let jitter = if src.bool() { 0.0 } else { 0.01 };
    let mut u = Granular::new(1, 1, 1.0, 8, seed, 0.1, 0.2, jitter, move |_, _, _, _, _, _| ((len as f64 / sr) as f32, 0.0f32, Box::new(h::noise()) as Un));
    u.set_sample_rate(sr);
    let count = src.size(2, 8);
    let n = len * (count + 1);
    let y = render(&mut u, &vec![], 0, &gen_steps(src, n));
    ctx.note(format!("{} noise grains of {} samples, seed {}", count, len, seed));
    for a in 0..count { for b in 0..a {
        let m = len - 8;
        // Grain boundaries may be off by a sample.
        for d in 0..3 {
            let (i, j) = (a * len + 4 + d, b * len + 5);
            let c: f64 = (0..m).map(|t| y[0][i + t] as f64 * y[0][j + t] as f64).sum();
            let e: f64 = (0..m).map(|t| (y[0][i + t] as f64).powi(2)).sum();
            ensure!(e > 0.0, "silent", "noise grain {} is silent", a);
            ensure!(c < 0.95 * e, "same-noise", "grains {} and {} are the same noise (correlation {})", a, b, c / e);
        }
    } }
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C35",
        rule: "a case is a synthesizer with random voices, lengths, path and seed, a sample rate and a call schedule; non-trivial when some voice played more than one grain (texture: at least eight grains a cycle apart compared; phases: always)",
        assumptions: &["the grain generator is a pure function", "envelopes are shorter than grains, as the synthesizer requires"],
        subs: vec![
            Sub { name: "schedule", quick: 16000, thorough: 600000, f: |s, c| schedule(s, c, false) },
            Sub { name: "long", quick: 400, thorough: 12000, f: |s, c| schedule(s, c, true) },
            Sub { name: "texture", quick: 1500, thorough: 100000, f: texture },
            Sub { name: "phases", quick: 3000, thorough: 100000, f: phases },
        ],
    });
}
