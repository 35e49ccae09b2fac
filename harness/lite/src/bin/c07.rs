//! C07: committed network edits reach the audio thread intact under any schedule.
use fundsp::hacker::*;
use std::collections::BTreeMap;
use vfcore::kind::Kind;
use vfcore::render::{all_blocks, gen_input, gen_steps, render};
use vfcore::*;
use vflite::netmodel::*;

enum Msg { Commit(NetModel), Set(u64, u64) }

/// What the rendering side must be playing after picking up a message.
fn pick_up(b: &mut NetModel, m: Msg) {
    match m {
        Msg::Commit(mut new) => {
            for (k, n) in new.nodes.iter_mut() {
                if let Some(o) = b.nodes.get(k) { if o.gen == n.gen { n.unit = o.unit.clone(); } }
            }
            *b = new;
        }
        Msg::Set(k, v) => if let Some(n) = b.nodes.get_mut(&k) { n.unit.id = v; },
    }
}

fn schedule(src: &mut Src, ctx: &mut Ctx) -> Res {
    let maxc = src.size(1, 4);
    let mut p = Pair::new(src, maxc);
    let before = src.size(0, 10);
    for _ in 0..before { let op = *src.pick(OPS); p.edit(src, op, true, false)?; }
    if src.chance(1, 4) {
        // The network has already played when it is split.
        let n = src.size(1, 40);
        let x = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
        p.m.run(&x, n);
        let steps = gen_steps(src, n);
        render(&mut p.net, &x, 0, &steps);
    }
    let mut back = p.net.backend();
    let mut b = p.m.clone();
    let mut pending: Vec<Msg> = Vec::new();
    let count = if src.chance(1, 12) { src.size(30, 100) } else { src.size(1, 30) };
    let (mut commits, mut edits, mut stacked, mut set) = (0, 0, 0, false);
    p.log.push_str("; backend");
    for _ in 0..count {
        match src.below(10) {
            0 | 1 => {
                p.net.commit();
                p.log.push_str("; COMMIT");
                if pending.iter().any(|m| matches!(m, Msg::Commit(_))) { stacked += 1; }
                pending.push(Msg::Commit(p.m.clone()));
                commits += 1;
            }
            2 | 3 => {
                let n = src.size(1, 80);
                let x = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
                let steps = gen_steps(src, n);
                for m in pending.drain(..) { pick_up(&mut b, m); }
                let want = b.run(&x, n);
                let got = render(&mut back, &x, 0, &steps);
                p.log.push_str(&format!("; PLAY {}", n));
                for c in 0..want.len() { for i in 0..n {
                    ensure!(same(want[c][i], got[c][i]), "played", "channel {} sample {}: expected {}, got {} after: {}", c, i, want[c][i], got[c][i], p.log);
                } }
            }
            4 if !p.ids.is_empty() => {
                // A setting sent through the editing side.
                let i = src.below(p.ids.len() as u64) as usize;
                let k = *p.ids.keys().nth(i).unwrap();
                let v = src.size(1, 1000) as u64;
                p.net.set(Setting::value(v as f32).node(p.ids[&k]));
                p.log.push_str(&format!("; SET n{} {}", k, v));
                pending.push(Msg::Set(k, v));
                set = true;
            }
            5 if src.chance(1, 4) => {
                // A reset of the rendering side.
                b.reset();
                for m in pending.drain(..) { pick_up(&mut b, m); }
                back.reset();
                p.log.push_str("; BACKEND RESET");
            }
            _ => {
                let op = *src.pick(OPS);
                // A reset of the editing side after a setting would bring back its own copies.
                if op == Op::Reset {
                    if set { continue; }
                    p.gens += 1;
                    let g = p.gens;
                    for n in p.m.nodes.values_mut() { n.gen = g; }
                }
                if p.edit(src, op, true, false)? { edits += 1; }
            }
        }
    }
    p.queries()?;
    // In the end everything committed is heard.
    p.net.commit();
    pending.push(Msg::Commit(p.m.clone()));
    for m in pending.drain(..) { pick_up(&mut b, m); }
    let n = src.size(1, 70);
    let x = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
    let steps = gen_steps(src, n);
    let want = b.run(&x, n);
    let got = render(&mut back, &x, 0, &steps);
    for c in 0..want.len() { for i in 0..n {
        ensure!(same(want[c][i], got[c][i]), "played-last", "channel {} sample {}: expected {}, got {} after: {}; COMMIT; PLAY", c, i, want[c][i], got[c][i], p.log);
    } }
    ctx.note(&p.log);
    if commits > 0 && edits > 1 { ctx.nontrivial(); }
    if stacked > 0 { ctx.label("several commits before one block"); }
    if set { ctx.label("with settings"); }
    Ok(())
}

/// Crossfades in the schedule: units without memory, compared whenever all fades have run out.
fn fades(src: &mut Src, ctx: &mut Ctx) -> Res {
    let chans = src.size(1, 2);
    let nodes = src.size(1, 4);
    let mut net = Net::new(chans, chans);
    let unit = |id: u64| probe::Probe::boxed(probe::ProbeModel::new(id, chans, chans, 0));
    let mut next_id = 1u64;
    // front: node -> unit id it will settle on; played: the same for the rendering side.
    let mut ids: Vec<(u64, NodeId)> = Vec::new();
    let mut order: Vec<u64> = Vec::new();
    let mut front: BTreeMap<u64, u64> = BTreeMap::new();
    for k in 0..nodes as u64 {
        let id = net.chain(unit(next_id));
        ids.push((k, id));
        order.push(k);
        front.insert(k, next_id);
        next_id += 1;
    }
    let mut back = net.backend();
    let mut played = (order.clone(), front.clone());
    let mut sent: Option<(Vec<u64>, BTreeMap<u64, u64>)> = None;
    let mut log = format!("chain of {}", nodes);
    let (mut quiet, mut uncommitted, mut queued) = (0usize, 0usize, 0usize);
    let mut compared = 0;
    let mut busy = 0;
    let count = src.size(2, 30);
    for step in 0..count + 2 {
        let choice = if step == count { 1 } else if step > count { 2 } else { src.below(8) };
        match choice {
            0 | 1 => {
                net.commit();
                log.push_str("; COMMIT");
                sent = Some((order.clone(), front.clone()));
                queued += uncommitted;
                uncommitted = 0;
            }
            2 | 3 => {
                if let Some(s) = sent.take() { played = s; quiet += queued; queued = 0; }
                let long = step > count || src.bool();
                let n = if long { quiet + src.size(1, 64) } else { src.size(1, 50) };
                let x = gen_input(src, &vec![Kind::Audio; chans], n);
                let steps = if n > 300 { all_blocks(n) } else { gen_steps(src, n) };
                let got = render(&mut back, &x, 0, &steps);
                log.push_str(&format!("; PLAY {}", n));
                if quiet > 0 { busy += 1; }
                let m: Vec<probe::ProbeModel> = played.0.iter().map(|k| probe::ProbeModel::new(played.1[k], chans, chans, 0)).collect();
                for i in 0..n {
                    if i < quiet { continue; }
                    let mut v: Vec<f32> = x.iter().map(|c| c[i]).collect();
                    let mut o = v.clone();
                    for mut u in m.iter().cloned() { u.step(&v, &mut o); v = o.clone(); }
                    compared += 1;
                    for c in 0..chans {
                        ensure!(same(v[c], got[c][i]), "settled", "channel {} sample {}: expected {}, got {} after: {}", c, i, v[c], got[c][i], log);
                    }
                }
                quiet = quiet.saturating_sub(n);
            }
            4 | 5 if !ids.is_empty() => {
                let (k, id) = *src.pick(&ids);
                let n = src.size(0, 200);
                let f = if src.bool() { Fade::Smooth } else { Fade::Power };
                log.push_str(&format!("; crossfade(n{}, {} samples, P{})", k, n, next_id));
                net.crossfade(id, f, n as f32 / 44100.0, unit(next_id));
                front.insert(k, next_id);
                next_id += 1;
                uncommitted += n + 66;
            }
            6 if !ids.is_empty() => {
                let (k, id) = *src.pick(&ids);
                log.push_str(&format!("; replace(n{}, P{})", k, next_id));
                net.replace(id, unit(next_id));
                front.insert(k, next_id);
                next_id += 1;
            }
            7 if src.chance(1, 3) => {
                // The editing side goes through an operator, on either side of it.
                let k = 100 + next_id;
                let (new, id) = Net::wrap_id(unit(next_id));
                let old = std::mem::replace(&mut net, Net::new(0, 0));
                if src.bool() {
                    log.push_str(&format!("; n{}=net >> P{}", k, next_id));
                    net = old >> new;
                    order.push(k);
                } else {
                    log.push_str(&format!("; n{}=P{} >> net", k, next_id));
                    net = new >> old;
                    order.insert(0, k);
                }
                ids.push((k, id));
                front.insert(k, next_id);
                next_id += 1;
            }
            _ => {
                match src.below(4) {
                    0 if !ids.is_empty() => {
                        let i = src.below(ids.len() as u64) as usize;
                        let (k, id) = ids.remove(i);
                        log.push_str(&format!("; remove_link(n{})", k));
                        net.remove_link(id);
                        order.retain(|x| *x != k);
                    }
                    1 => { log.push_str("; reset"); net.reset(); }
                    _ => {
                        let k = 100 + next_id;
                        log.push_str(&format!("; n{}=chain(P{})", k, next_id));
                        if order.is_empty() { for c in 0..chans { net.pass_through(c, c); } }
                        ids.push((k, net.chain(unit(next_id))));
                        order.push(k);
                        front.insert(k, next_id);
                        next_id += 1;
                    }
                }
            }
        }
    }
    ctx.note(&log);
    if busy > 0 && compared > 0 { ctx.nontrivial(); }
    Ok(())
}

/// Real threads: every block is one whole version, versions never go back, the last one arrives.
fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let chans = src.size(2, 8);
    let versions = src.size(2, 60);
    let gap = src.size(0, 300);
    let tick = src.bool();
    let mut net = Net::new(0, chans);
    let ids: Vec<NodeId> = (0..chans).map(|c| { let id = net.push(Box::new(dc(0.0))); net.connect_output(id, 0, c); id }).collect();
    let mut back = net.backend();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    let t = std::thread::spawn(move || -> Result<(f32, usize), String> {
        let mut last = 0.0f32;
        let mut distinct = 0;
        let mut buf = BufferVec::new(chans);
        loop {
            let done = s2.load(std::sync::atomic::Ordering::SeqCst);
            let mut o = vec![0.0f32; chans];
            let mut seen = Vec::new();
            if tick { back.tick(&[], &mut o); seen.push(o.clone()); }
            else {
                back.process(64, &BufferRef::empty(), &mut buf.buffer_mut());
                for i in 0..64 { seen.push((0..chans).map(|c| buf.at_f32(c, i)).collect()); }
            }
            let v = seen[0][0];
            for s in &seen { for x in s { if *x != v { return Err(format!("one block mixes versions {} and {}", v, x)); } } }
            if v < last { return Err(format!("version {} after version {}", v, last)); }
            if v > last { distinct += 1; }
            last = v;
            if done { return Ok((last, distinct)); }
        }
    });
    for v in 1..=versions {
        for id in &ids { net.replace(*id, Box::new(dc(v as f32))); }
        net.commit();
        for _ in 0..gap { std::hint::spin_loop(); }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    match t.join() {
        Ok(Ok((last, distinct))) => {
            ctx.note(format!("{} channels, {} versions", chans, versions));
            if distinct > 1 { ctx.label("several versions heard"); }
            ctx.nontrivial();
            ensure!(last == versions as f32, "last-version", "the last commit {} was not heard, {} was", versions, last);
            Ok(())
        }
        Ok(Err(e)) => fail("torn-version", e),
        Err(_) => fail("thread-panic", "rendering thread panicked"),
    }
}

fn main() {
    main_check(Check {
        id: "C07",
        rule: "a case is an interleaving of edits, settings, commits, resets and rendered stretches; non-trivial when something was committed after at least two edits (schedule), a fade was played and a settled stretch compared (fades), or always (threads)",
        assumptions: &["fewer than 1024 messages are outstanding (capacity of the queue)", "a setting sent to a network with a backend changes the backend only"],
        subs: vec![
            Sub { name: "schedule", quick: 250000, thorough: 12000000, f: schedule },
            Sub { name: "fades", quick: 100000, thorough: 4000000, f: fades },
            Sub { name: "threads", quick: 400, thorough: 20000, f: threads },
        ],
    })
}
