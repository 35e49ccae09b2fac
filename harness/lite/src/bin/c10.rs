//! C10: a split sequencer behaves like a whole one under any schedule.
use fundsp::hacker::*;
use vfcore::*;
use vflite::seqmodel::*;

fn schedule(src: &mut Src, ctx: &mut Ctx) -> Res {
    let outs = src.size(1, 2);
    let replay = src.bool();
    let sr = *src.pick(&[44100.0, 48000.0, 1000.0]);
    let mut f = Front { seq: Sequencer::new(replay, outs), ids: vec![] };
    f.seq.set_sample_rate(sr);
    let mut m = SeqModel::new(replay, outs, sr);
    let mut next = 0;
    let mut before: Vec<MEvent> = vec![];
    let mut log = format!("{} outputs, replay {}, rate {}", outs, replay, sr);
    // Some history before the split.
    for _ in 0..src.size(0, 4) {
        let known = m.clone();
        if let Some(c) = gen_cmd(src, &mut next, &m, &known, &mut log) { f.send(&c); m.apply(c); }
    }
    if src.chance(1, 3) {
        let n = src.size(1, 100);
        let got = play(src, &mut f.seq, n, &mut log);
        m.check(&got, n, &log)?;
    }
    log.push_str("; BACKEND");
    let mut back = f.seq.backend();
    let mut pending: Vec<Cmd> = Vec::new();
    // What the model will be once everything pending has been picked up now.
    let count = if src.chance(1, 10) { src.size(20, 60) } else { src.size(1, 20) };
    let (mut played, mut piled, mut resets) = (0, 0, 0);
    for step in 0..=count {
        match if step == count { 9 } else { src.below(12) } {
            0..=5 => {
                let mut known = m.clone();
                for c in pending.iter().cloned() { known.apply(c); }
                // After a pending reset, times count from zero.
                let view = SeqModel { time: known.time, ..m.clone() };
                if let Some(c) = gen_cmd(src, &mut next, &view, &known, &mut log) {
                    f.send(&c);
                    pending.push(c);
                    if pending.len() > 1 { piled += 1; }
                }
            }
            6 => {
                if src.chance(1, 3) {
                    log.push_str("; reset");
                    f.send(&Cmd::Reset);
                    pending.push(Cmd::Reset);
                    resets += 1;
                }
            }
            7 if src.chance(1, 4) => {
                log.push_str("; BACKEND RESET");
                for c in pending.drain(..) { m.apply(c); }
                m.apply(Cmd::Reset);
                back.reset();
                resets += 1;
            }
            8 if src.chance(1, 2) => {
                // Queries and rate changes on the rendering side also pick up what is pending.
                ensure!(back.inputs() == 0 && back.outputs() == outs, "channels", "{} to {} in {}", back.inputs(), back.outputs(), log);
                for c in pending.drain(..) { m.apply(c); }
                match src.below(3) {
                    0 => { log.push_str("; BACKEND ROUTE"); let r = back.route(&SignalFrame::new(0), 440.0); ensure!(r.len() == outs, "route", "{} signals in {}", r.len(), log); }
                    1 => { log.push_str("; BACKEND PING"); back.ping(false, AttoHash::new(5)); }
                    _ => {
                        let sr = m.sr * *src.pick(&[1.0931, 0.9137, 1.7713]);
                        let close = m.events.iter().chain(before.iter()).any(|e| (e.end - m.time).abs() * m.sr.min(sr) < 1.01 && e.start * m.sr < m.time * m.sr + 1.0);
                        if !close && (200.0..100000.0).contains(&sr) {
                            m.sr = sr;
                            log.push_str(&format!("; BACKEND RATE {}", sr));
                            back.set_sample_rate(sr);
                        } else { back.allocate(); back.ping(true, AttoHash::new(5)); }
                    }
                }
            }
            _ => {
                let n = src.size(1, 150);
                for c in pending.drain(..) { m.apply(c); }
                before = m.events.clone();
                let got = play(src, &mut back, n, &mut log);
                m.check(&got, n, &log)?;
                played += 1;
            }
        }
    }
    ctx.note(&log);
    if next > 0 && played > 0 { ctx.nontrivial(); }
    if piled > 0 { ctx.label("several messages before one block"); }
    if resets > 0 { ctx.label("reset"); }
    Ok(())
}

/// Real threads: the total of what is heard equals what was pushed.
fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let count = src.size(1, 300);
    let gap = src.size(0, 200);
    let mut seq = Sequencer::new(false, 1);
    let mut back = seq.backend();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    let lens: Vec<usize> = (0..count).map(|_| src.size(1, 40)).collect();
    let total: usize = lens.iter().sum();
    let tick = src.bool();
    let t = std::thread::spawn(move || -> f64 {
        let mut sum = 0.0f64;
        let mut buf = BufferVec::new(1);
        let mut left = 100usize;
        loop {
            if s2.load(std::sync::atomic::Ordering::SeqCst) { left -= 1; }
            if tick { let mut o = [0.0f32]; for _ in 0..16 { back.tick(&[], &mut o); sum += o[0] as f64; } }
            else { back.process(64, &BufferRef::empty(), &mut buf.buffer_mut()); for i in 0..64 { sum += buf.at_f32(0, i) as f64; } }
            if left == 0 { return sum; }
        }
    });
    for l in &lens {
        seq.push_relative(0.0, *l as f64 / 44100.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
        for _ in 0..gap { std::hint::spin_loop(); }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    match t.join() {
        Ok(sum) => {
            ctx.nontrivial();
            ctx.note(format!("{} events, {} samples", count, total));
            ensure!((sum - total as f64).abs() < 1.0e-6, "lost-or-doubled", "{} event samples pushed, {} heard", total, sum);
            Ok(())
        }
        Err(_) => fail("thread-panic", "rendering thread panicked"),
    }
}

fn main() {
    main_check(Check {
        id: "C10",
        rule: "a case is an interleaving of pushes, edits and resets on the editing side with resets and rendered stretches on the rendering side; non-trivial when an event was pushed and a stretch rendered",
        assumptions: &["fewer than 2048 messages are outstanding (capacity of the queue)", "as for C09"],
        subs: vec![
            Sub { name: "schedule", quick: 300000, thorough: 12000000, f: schedule },
            Sub { name: "threads", quick: 300, thorough: 20000, f: threads },
        ],
    })
}
