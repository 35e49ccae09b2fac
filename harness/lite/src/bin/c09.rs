//! C09: the sequencer plays the sum of its events at sample accuracy.
use fundsp::hacker::*;
use vfcore::*;
use vflite::seqmodel::*;

fn events(src: &mut Src, ctx: &mut Ctx) -> Res {
    let outs = src.size(1, 3);
    let replay = src.bool();
    let mut sr = *src.pick(&[44100.0, 48000.0, 1000.0, 22050.0]);
    let mut f = Front { seq: Sequencer::new(replay, outs), ids: vec![] };
    f.seq.set_sample_rate(sr);
    let mut m = SeqModel::new(replay, outs, sr);
    let mut next = 0;
    // The events before the last stretch.
    let mut before: Vec<MEvent> = vec![];
    let mut log = format!("{} outputs, replay {}, rate {}", outs, replay, sr);
    let count = if src.chance(1, 10) { src.size(20, 60) } else { src.size(1, 20) };
    let (mut played, mut edits, mut resets, mut rates) = (0, 0, 0, 0);
    for step in 0..=count {
        match if step == count { 9 } else { src.below(12) } {
            0..=5 => {
                let known = m.clone();
                if let Some(c) = gen_cmd(src, &mut next, &m, &known, &mut log) {
                    if matches!(c, Cmd::Edit(..) | Cmd::EditRel(..)) { edits += 1; }
                    f.send(&c);
                    m.apply(c);
                }
            }
            6 if src.chance(1, 3) => {
                log.push_str("; reset");
                f.send(&Cmd::Reset);
                m.apply(Cmd::Reset);
                resets += 1;
            }
            7 if src.chance(1, 4) => {
                // A copy continues; the original plays on elsewhere.
                log.push_str("; clone");
                let c = f.seq.clone();
                let mut old = std::mem::replace(&mut f.seq, c);
                let mut l = String::new();
                play(src, &mut old, 30, &mut l);
            }
            8 if src.chance(1, 2) => {
                // Another sample rate. Ratios are such that no event time falls between two samples at the new rate.
                sr = m.sr * *src.pick(&[1.0931, 0.9137, 1.7713]);
                let close = m.events.iter().chain(before.iter()).any(|e| (e.end - m.time).abs() * m.sr.min(sr) < 1.01 && e.start * m.sr < m.time * m.sr + 1.0);
                if !close && (200.0..100000.0).contains(&sr) {
                    m.sr = sr;
                    f.seq.set_sample_rate(sr);
                    log.push_str(&format!("; rate {}", sr));
                    if m.time > 0.0 { rates += 1; }
                }
            }
            _ => {
                let n = src.size(1, 200);
                let got = play(src, &mut f.seq, n, &mut log);
                before = m.events.clone();
                m.check(&got, n, &log)?;
                ensure!((f.seq.time() - m.time).abs() < 1.0e-9, "time", "time() is {} instead of {} in {}", f.seq.time(), m.time, log);
                played += 1;
            }
        }
    }
    ctx.note(&log);
    if next > 0 && played > 0 { ctx.nontrivial(); }
    if edits > 0 { ctx.label("edited"); }
    if resets > 0 { ctx.label("reset"); }
    if rates > 0 { ctx.label("rate changed while playing"); }
    Ok(())
}

/// Events long after the start, many of them close together.
fn far(src: &mut Src, ctx: &mut Ctx) -> Res {
    let replay = src.bool();
    let sr = *src.pick(&[44100.0, 48000.0, 96000.0, 22050.0]);
    let mut f = Front { seq: Sequencer::new(replay, 1), ids: vec![] };
    f.seq.set_sample_rate(sr);
    let mut m = SeqModel::new(replay, 1, sr);
    m.slack = 0.01 / sr;
    let top = 1000usize << src.below(10);
    let blocks = src.size(10, top);
    let n0 = blocks as f64 * 64.0;
    let mut log = format!("{} samples of silence at {}", n0, sr);
    let mut next = 0;
    let early = src.size(0, 30);
    let mut out = BufferVec::new(1);
    for _ in 0..early {
        log.push_str("; push ");
        let e = SeqModel::gen_event(src, next, 1, sr, n0 + 21.0, &mut log);
        next += 1;
        f.send(&Cmd::Push(e.clone()));
        m.apply(Cmd::Push(e));
    }
    for _ in 0..blocks { f.seq.process(64, &BufferRef::empty(), &mut out.buffer_mut()); }
    ensure!(out.channel_f32(0).iter().all(|x| *x == 0.0), "early", "something sounds at {}: {}", n0, log);
    m.time = n0 / sr;
    for _ in 0..src.size(1, 6) {
        for _ in 0..src.size(0, 6) {
            let known = m.clone();
            if let Some(c) = gen_cmd(src, &mut next, &m, &known, &mut log) {
                f.send(&c);
                m.apply(c);
            }
        }
        let n = src.size(1, 200);
        let got = play(src, &mut f.seq, n, &mut log);
        m.check(&got, n, &log)?;
        ensure!((f.seq.time() - m.time).abs() < 0.01 / sr, "time", "time() is {} instead of {} in {}", f.seq.time(), m.time, log);
    }
    ctx.note(&log);
    if next > 0 { ctx.nontrivial(); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C09",
        rule: "a case is a history of pushes (absolute, relative, by duration), edits, resets, copies and rendered stretches; non-trivial when at least one event was pushed and a stretch rendered",
        assumptions: &["event times do not fall within 0.05 samples of half-way between two samples", "edits shorten events and end in the future, as documented", "the power fade is the documented sine approximation (0.25 %)"],
        subs: vec![
            Sub { name: "events", quick: 300000, thorough: 12000000, f: events },
            Sub { name: "far", quick: 20000, thorough: 60_000, f: far },
        ],
    })
}
