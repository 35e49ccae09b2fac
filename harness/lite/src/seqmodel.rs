//! Reference model of the sequencer: a list of events evaluated per sample.
use fundsp::hacker::*;
use vfcore::probe::{Probe, ProbeModel};
use vfcore::render::{gen_steps, render, Sig};
use vfcore::{ensure, Res, Src};

#[derive(Clone, Debug)]
pub struct MEvent {
    pub key: u64,
    pub start: f64,
    pub end: f64,
    pub power: bool,
    pub fin: f64,
    pub fout: f64,
    pub unit: ProbeModel,
    pub fresh: ProbeModel,
}

#[derive(Clone, Debug)]
pub enum Cmd { Push(MEvent), PushRel(MEvent), Edit(u64, f64, f64), EditRel(u64, f64, f64), Reset }

#[derive(Clone, Debug)]
pub struct SeqModel {
    pub events: Vec<MEvent>,
    pub time: f64,
    pub sr: f64,
    pub outs: usize,
    pub replay: bool,
    /// The time may be off by this much after a long stretch (seconds).
    pub slack: f64,
}

pub fn shape(power: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if power { (x * std::f64::consts::FRAC_PI_2).sin() } else { ((6.0 * x - 15.0) * x + 10.0) * x * x * x }
}

impl SeqModel {
    pub fn new(replay: bool, outs: usize, sr: f64) -> SeqModel { SeqModel { events: Vec::new(), time: 0.0, sr, outs, replay, slack: 0.0 } }
    pub fn apply(&mut self, c: Cmd) {
        match c {
            Cmd::Push(e) => self.events.push(e),
            Cmd::PushRel(mut e) => { e.start += self.time; e.end += self.time; self.events.push(e) }
            Cmd::Edit(k, end, fout) => for e in self.events.iter_mut() { if e.key == k { e.end = end; e.fout = fout; } },
            Cmd::EditRel(k, end, fout) => for e in self.events.iter_mut() { if e.key == k { e.end = self.time + end; e.fout = fout; } },
            Cmd::Reset => {
                self.time = 0.0;
                if self.replay { for e in self.events.iter_mut() { e.unit = e.fresh.clone(); } } else { self.events.clear(); }
            }
        }
    }
    /// Is the event over (or was it never to sound)?
    pub fn over(&self, e: &MEvent) -> bool { e.end <= self.time + 0.5 / self.sr }
    /// One sample: per output (expected, tolerance).
    pub fn step(&mut self) -> Vec<(f64, f64)> {
        let mut o = vec![(0.0, 1.0e-6); self.outs];
        let sd = 1.0 / self.sr;
        let t = self.time;
        let mut y = vec![0.0f32; self.outs];
        for e in self.events.iter_mut() {
            if !(e.start < t + 0.5 * sd && e.end > t + 0.5 * sd) { continue; }
            e.unit.step(&[], &mut y);
            // Gain bounds. A fade boundary may be rounded to the nearest sample, so the gain may already
            // (or still) be one within half a sample of the end of a fade in (or the start of a fade out).
            let (mut lo, mut hi) = (1.0, 1.0);
            let mut tol = 1.0e-5;
            let near = 0.5001 * sd;
            if e.fin > 0.0 {
                let p = (t - e.start) / e.fin;
                lo *= shape(e.power, p - self.slack / e.fin);
                if (1.0 - p) * e.fin > near + self.slack { hi *= shape(e.power, p + self.slack / e.fin); }
                tol += if e.power { 2.5e-3 } else { 1.0e-4 };
            }
            if e.fout > 0.0 && e.end.is_finite() {
                let p = (t - (e.end - e.fout)) / e.fout;
                lo *= shape(e.power, 1.0 - p - self.slack / e.fout);
                if p * e.fout > near + self.slack { hi *= shape(e.power, 1.0 - p + self.slack / e.fout); }
                tol += if e.power { 2.5e-3 } else { 1.0e-4 };
            }
            for c in 0..self.outs {
                let v = y[c] as f64;
                o[c].0 += v * 0.5 * (lo + hi);
                o[c].1 += v.abs() * (tol + 0.5 * (hi - lo));
            }
        }
        self.time += sd;
        o
    }
    pub fn check(&mut self, got: &Sig, n: usize, log: &str) -> Res {
        for i in 0..n {
            let w = self.step();
            for c in 0..self.outs {
                let (x, t) = w[c];
                ensure!((got[c][i] as f64 - x).abs() <= t, "output", "channel {} sample {} of the last stretch: expected {} (±{}), got {} in {}", c, i, x, t, got[c][i], log);
            }
        }
        // Events that are over are forgotten unless they are to be replayed.
        if !self.replay { let now = self.time + 0.5 / self.sr; self.events.retain(|e| e.end > now || e.start > now); }
        Ok(())
    }
    /// Samples to a time that rounds to that sample unambiguously.
    pub fn gen_time(src: &mut Src, base: f64, lo: i64, hi: i64) -> f64 {
        let k = src.int(lo, hi) as f64;
        let f = match src.below(4) { 0 | 1 => 0.0, 2 => src.f64(0.0, 0.45), _ => -src.f64(0.0, 0.45) };
        base + k + f
    }
    /// A random event; times relative to `base` samples.
    pub fn gen_event(src: &mut Src, key: u64, outs: usize, sr: f64, base: f64, log: &mut String) -> MEvent {
        let s = Self::gen_time(src, base, -20, 200);
        let e = if src.chance(1, 6) { f64::INFINITY } else { Self::gen_time(src, s.round(), 0, 250).max(s) };
        let d = e - s;
        let fade = |src: &mut Src| -> f64 {
            match src.below(4) { 0 | 1 => 0.0, 2 => (src.f64(0.0, 4.0)).min(d), _ => if d.is_finite() { src.f64(0.0, 1.0) * d } else { src.f64(0.0, 100.0) } }
        };
        let fin = fade(src);
        let fout = if d.is_finite() { fade(src) } else { 0.0 };
        let power = src.bool();
        let m = ProbeModel::new(key + 1, 0, outs, *src.pick(&[0u8, 3, 3, 1]));
        log.push_str(&format!("e{}: {:.3}..{:.3} in {:.3} out {:.3} {} m{}", key, s, e, fin, fout, if power { "power" } else { "smooth" }, m.mode));
        MEvent { key, start: s / sr, end: e / sr, power, fin: (fin / sr).min((e - s) / sr), fout: (fout / sr).min((e - s) / sr), unit: m.clone(), fresh: m }
    }
}

/// A sequencer (or its editing side) with the names of its events.
pub struct Front { pub seq: Sequencer, pub ids: Vec<(u64, EventId)> }
impl Front {
    pub fn send(&mut self, c: &Cmd) {
        match c {
            Cmd::Push(e) | Cmd::PushRel(e) => {
                let f = if e.power { Fade::Power } else { Fade::Smooth };
                let u = Probe::boxed(e.unit.clone());
                let (fin, fout) = (e.fin.min(e.end - e.start), e.fout.min(e.end - e.start));
                let id = if matches!(c, Cmd::Push(_)) {
                    if e.key % 3 == 0 && e.end.is_finite() && e.start + (e.end - e.start) == e.end { self.seq.push_duration(e.start, e.end - e.start, f, fin, fout, u) } else { self.seq.push(e.start, e.end, f, fin, fout, u) }
                } else { self.seq.push_relative(e.start, e.end, f, fin, fout, u) };
                self.ids.push((e.key, id));
            }
            Cmd::Edit(k, end, fout) => { let id = self.ids.iter().find(|x| x.0 == *k).unwrap().1; self.seq.edit(id, *end, *fout) }
            Cmd::EditRel(k, end, fout) => { let id = self.ids.iter().find(|x| x.0 == *k).unwrap().1; self.seq.edit_relative(id, *end, *fout) }
            Cmd::Reset => self.seq.reset(),
        }
    }
}

/// Generates a push or edit that is sensible at `m.time`, the earliest time it can take effect.
/// `known`: events as the editing side knows them (already includes what is pending).
pub fn gen_cmd(src: &mut Src, next: &mut u64, m: &SeqModel, known: &SeqModel, log: &mut String) -> Option<Cmd> {
    let sr = m.sr;
    let now = (m.time * sr).round();
    match src.below(8) {
        0..=3 => {
            *next += 1;
            let rel = src.bool();
            log.push_str(if rel { "; push_relative " } else { "; push " });
            let e = SeqModel::gen_event(src, *next - 1, m.outs, sr, if rel { 0.0 } else { now }, log);
            Some(if rel { Cmd::PushRel(e) } else { Cmd::Push(e) })
        }
        _ => {
            if known.events.is_empty() { return None; }
            let e = src.pick(&known.events).clone();
            // Retained events that are over would change when they are replayed.
            if m.replay && known.over(&e) { return None; }
            let rel = src.bool();
            // An event that has started may be told to end in the past: it stops at once.
            let past = e.start * sr < now - 1.0 && src.chance(1, 6);
            let end = if past { SeqModel::gen_time(src, now, -30, 0) } else { SeqModel::gen_time(src, now, 1, 150) };
            // Edits can only shorten.
            if end / sr > e.end { return None; }
            let fout = match src.below(3) { 0 => 0.0, 1 => src.f64(0.0, 3.0), _ => src.f64(0.0, 1.0) * (end - now).max(0.0) };
            log.push_str(&format!("; edit{} e{} end {:.3} out {:.3}", if rel { "_relative" } else { "" }, e.key, end, fout));
            Some(if rel { Cmd::EditRel(e.key, (end - now) / sr, fout / sr) } else { Cmd::Edit(e.key, end / sr, fout / sr) })
        }
    }
}

pub fn play(src: &mut Src, u: &mut dyn AudioUnit, n: usize, log: &mut String) -> Sig {
    let steps = gen_steps(src, n);
    log.push_str(&format!("; play {}", vfcore::render::describe_steps(&steps)));
    render(u, &vec![], 0, &steps)
}
