//! C08: replacing a playing unit crossfades smoothly and ends on the replacement.
use fundsp::hacker::*;
use vfcore::kind::Kind;
use vfcore::probe::{Probe, ProbeModel};
use vfcore::render::{gen_input, gen_steps, render, describe_steps};
use vfcore::*;

fn shape(power: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if power { (x * std::f64::consts::FRAC_PI_2).sin() } else { ((6.0 * x - 15.0) * x + 10.0) * x * x * x }
}
fn fade_of(power: bool) -> Fade { if power { Fade::Power } else { Fade::Smooth } }

/// Is `y` the mix of `a` (going out) and `b` (coming in) at sample `k` of a fade over `n` samples?
fn mixed(y: f32, a: f32, b: f32, k: usize, n: f64, power: bool) -> bool {
    let slack = 1.5 + n * n * 6.0e-8;
    let lo = (k as f64 - slack) / n.max(1.0e-9);
    let hi = (k as f64 + slack) / n.max(1.0e-9);
    let mut min = 0.0;
    let mut max = 0.0;
    for (v, g0, g1) in [(a as f64, shape(power, 1.0 - lo), shape(power, 1.0 - hi)), (b as f64, shape(power, lo), shape(power, hi))] {
        min += (v * g0).min(v * g1);
        max += (v * g0).max(v * g1);
    }
    // The power fade is a sine approximated to about 0.2 %.
    let t = 1.0e-5 + (if power { 2.5e-3 } else { 1.0e-5 }) * (a.abs() as f64 + b.abs() as f64);
    y as f64 >= min - t && y as f64 <= max + t
}

fn is_close(a: f32, b: f32) -> bool { same(a, b) || (a - b).abs() <= 1.0e-6 * (1.0 + a.abs()) }

enum Host { Net(Net, NodeId), Split(Net, NetBackend, NodeId), Slot(Slot, SlotBackend) }
impl Host {
    fn unit(&mut self) -> &mut dyn AudioUnit { match self { Host::Net(n, _) => n, Host::Split(_, b, _) => b, Host::Slot(_, b) => b } }
    fn fade(&mut self, power: bool, time: f64, u: Box<dyn AudioUnit>) {
        match self {
            Host::Net(n, id) => n.crossfade(*id, fade_of(power), time as f32, u),
            Host::Split(n, _, id) => { n.crossfade(*id, fade_of(power), time as f32, u); n.commit(); }
            Host::Slot(s, _) => s.set(fade_of(power), time, u),
        }
    }
}

/// One fade at a time, repeated, with stateful units.
fn single(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ins = src.size(0, 3);
    let outs = src.size(1, 3);
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 8000.0]);
    let mut next = 2;
    let m0 = ProbeModel::new(1, ins, outs, src.below(4) as u8);
    let host_kind = src.below(3);
    let starts_silent = host_kind < 2 && src.chance(1, 3);
    // A neighbour in the network whose signal must not be touched by the fade.
    let mut other = ProbeModel::new(1000, ins, 1, src.below(4) as u8);
    let mut old: Option<ProbeModel> = Some(m0.clone());
    let mut log = String::new();
    let mut first_fade = None;
    let mut host = match host_kind {
        0 | 1 => {
            let mut net = Net::new(ins, outs + 1);
            net.set_sample_rate(sr);
            let split = host_kind == 1;
            let id;
            if starts_silent && !split {
                let n = src.size(1, 800);
                let power = src.bool();
                let m = ProbeModel::new(next, ins, outs, src.below(4) as u8);
                next += 1;
                id = net.fade_in(fade_of(power), (n as f64 / sr) as f32, Probe::boxed(m.clone()));
                log.push_str(&format!("fade_in({} samples); ", n));
                old = None;
                first_fade = Some((m, n, power));
            } else {
                id = net.push(Probe::boxed(m0));
            }
            let id2 = net.push(Probe::boxed(other.clone()));
            for c in 0..outs { net.connect_output(id, c, c); }
            net.connect_output(id2, 0, outs);
            for i in 0..ins { net.connect_input(i, id, i); net.connect_input(i, id2, i); }
            if split { let b = net.backend(); Host::Split(net, b, id) } else { Host::Net(net, id) }
        }
        _ => { let (s, mut b) = Slot::new(Probe::boxed(m0)); b.set_sample_rate(sr); Host::Slot(s, b) }
    };
    ctx.label(match host_kind { 0 => "network", 1 => "network backend", _ => "slot" });
    let rounds = src.size(1, 4);
    let mut faded = 0;
    for round in 0..rounds {
        // Play the settled unit.
        let mut fade = first_fade.take();
        if fade.is_none() {
            let n = src.size(0, 100);
            let x = gen_input(src, &vec![Kind::Audio; ins], n);
            let steps = gen_steps(src, n);
            let got = render(host.unit(), &x, 0, &steps);
            log.push_str(&format!("play {}; ", n));
            for i in 0..n {
                let xi: Vec<f32> = x.iter().map(|c| c[i]).collect();
                let mut want = vec![0.0; outs];
                if let Some(m) = old.as_mut() { m.step(&xi, &mut want); }
                for c in 0..outs { ensure!(is_close(want[c], got[c][i]), "settled", "channel {} sample {}: expected {}, got {} in {}", c, i, want[c], got[c][i], log); }
                if host_kind < 2 { let mut w = [0.0]; other.step(&xi, &mut w); ensure!(same(w[0], got[outs][i]), "neighbour", "neighbour disturbed at {}: expected {}, got {} in {}", i, w[0], got[outs][i], log); }
            }
            if round + 1 == rounds && round > 0 { break; }
            let n = match src.below(5) { 0 => 0, 1 => src.size(1, 10), 2 => src.size(500, 4000), _ => src.size(10, 500) };
            let power = src.bool();
            let m = ProbeModel::new(next, ins, outs, src.below(4) as u8);
            next += 1;
            host.fade(power, n as f64 / sr, Probe::boxed(m.clone()));
            log.push_str(&format!("fade to P{} over {} samples ({}); ", m.id, n, if power { "power" } else { "smooth" }));
            fade = Some((m, n, power));
        }
        let (mut new, n, power) = fade.unwrap();
        faded += 1;
        let extra = src.size(2, 80);
        let len = n + 3 + (n as f64 * n as f64 * 6.0e-8) as usize + extra;
        let x = gen_input(src, &vec![Kind::Audio; ins], len);
        let steps = gen_steps(src, len);
        let got = render(host.unit(), &x, 0, &steps);
        log.push_str(&format!("play {} [{}]; ", len, if steps.len() < 12 { describe_steps(&steps) } else { "..".into() }));
        for i in 0..len {
            let xi: Vec<f32> = x.iter().map(|c| c[i]).collect();
            let (mut a, mut b) = (vec![0.0; outs], vec![0.0; outs]);
            if let Some(m) = old.as_mut() { m.step(&xi, &mut a); }
            new.step(&xi, &mut b);
            let done = i as f64 > n as f64 + 2.0 + n as f64 * n as f64 * 6.0e-8;
            for c in 0..outs {
                if done { ensure!(is_close(b[c], got[c][i]), "after-fade", "channel {} sample {}: expected the new unit's {}, got {} in {}", c, i, b[c], got[c][i], log); }
                else { ensure!(mixed(got[c][i], a[c], b[c], i, n as f64, power), "during-fade", "channel {} sample {} of {}: old {}, new {}, got {} in {}", c, i, n, a[c], b[c], got[c][i], log); }
            }
            if host_kind < 2 { let mut w = [0.0]; other.step(&xi, &mut w); ensure!(same(w[0], got[outs][i]), "neighbour", "neighbour disturbed at {}: expected {}, got {} in {}", i, w[0], got[outs][i], log); }
        }
        old = Some(new);
        if src.chance(1, 6) {
            // A copy continues in the same way (networks can be copied while they fade).
            if let Host::Net(n, id) = &host { let c = n.clone(); host = Host::Net(c, *id); }
        }
    }
    ctx.note(&log);
    if faded > 0 { ctx.nontrivial(); }
    Ok(())
}

/// Requests that arrive while a fade is running: constant units with distinct values.
fn queued(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0]);
    let con = |v: f32| -> Box<dyn AudioUnit> { Box::new(dc(v)) };
    let mut cur = 1.0f32;
    let host_kind = src.below(3);
    let mut host = match host_kind {
        0 | 1 => {
            let mut net = Net::new(0, 1);
            net.set_sample_rate(sr);
            let id = net.push(con(cur));
            net.pipe_output(id);
            if host_kind == 1 { let b = net.backend(); Host::Split(net, b, id) } else { Host::Net(net, id) }
        }
        _ => { let (s, mut b) = Slot::new(con(cur)); b.set_sample_rate(sr); Host::Slot(s, b) }
    };
    let mut log = String::new();
    let mut out: Vec<f32> = Vec::new();
    let mut budget = 0usize;
    // First fade of a busy period: (position, samples, power, from, to).
    let mut first: Option<(usize, usize, bool, f32, f32)> = None;
    let mut maxabs = 1.0f32;
    let mut nmin = 1.0e9f64;
    let mut overlap = 0;
    let mut last = cur;
    let count = src.size(2, 12);
    let mut v = 1.0f32;
    for step in 0..=count {
        if step < count && src.chance(2, 3) {
            let n = src.size(32, 600);
            let power = src.bool();
            v = -(v.abs() + src.size(1, 3) as f32) * if src.bool() { 1.0 } else { -1.0 };
            host.fade(power, n as f64 / sr, con(v));
            log.push_str(&format!("at {} fade to {} over {} ({}); ", out.len(), v, n, if power { "power" } else { "smooth" }));
            maxabs = maxabs.max(v.abs());
            nmin = nmin.min(n as f64);
            if budget == 0 { first = Some((out.len(), n, power, cur, v)); } else { overlap += 1; }
            budget += n + 70;
            last = v;
        }
        let n = if step == count { budget + 20 } else { src.size(1, 300) };
        let steps = gen_steps(src, n);
        let got = render(host.unit(), &vec![], 0, &steps);
        let base = out.len();
        out.extend(&got[0]);
        for i in base..out.len() {
            if let Some((at, n, power, a, b)) = first {
                if i < at + n { ensure!(mixed(out[i], a, b, i - at, n as f64, power), "first-fade", "sample {} ({} of {}): from {} to {}, got {} in {}", i, i - at, n, a, b, out[i], log); }
            }
            if i > 0 {
                let d = (out[i] - out[i - 1]).abs() as f64;
                ensure!(d <= 2.0 * maxabs as f64 * 1.875 * 3.0 / nmin, "click", "step of {} at sample {} in {}", d, i, log);
            }
        }
        if n >= budget {
            for i in base + budget..out.len() { ensure!(out[i] == last, "last-request", "sample {}: expected the last requested unit's {}, got {} in {}", i, last, out[i], log); }
            cur = last;
            budget = 0;
            first = None;
        } else { budget -= n; }
        if host_kind == 2 && src.chance(1, 10) {
            // A slot adopts the last unit it has picked up when reset.
            host.unit().reset();
            log.push_str("reset; ");
            let got = render(host.unit(), &vec![], 0, &gen_steps(src, 20));
            if n > 0 { for y in &got[0] { ensure!(*y == last, "slot-reset", "after a reset: expected {}, got {} in {}", last, y, log); } }
            cur = last;
            budget = 0;
            first = None;
            out.clear();
        }
    }
    ctx.note(&log);
    if overlap > 0 { ctx.nontrivial(); }
    Ok(())
}

/// A fade requested while another one runs follows it with its own duration and curve.
fn second(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let con = |v: f32| -> Box<dyn AudioUnit> { Box::new(dc((v, v * 0.5))) };
    let (a, b) = (src.size(1, 4) as f32, -(src.size(1, 4) as f32));
    let c = src.size(5, 9) as f32;
    let host_kind = src.below(3);
    let mut host = match host_kind {
        0 | 1 => {
            let mut net = Net::new(0, 2);
            net.set_sample_rate(sr);
            let id = net.push(con(a));
            net.pipe_output(id);
            if host_kind == 1 { let b = net.backend(); Host::Split(net, b, id) } else { Host::Net(net, id) }
        }
        _ => { let (s, mut b) = Slot::new(con(a)); b.set_sample_rate(sr); Host::Slot(s, b) }
    };
    let (n1, n2) = (src.size(20, 400), src.size(20, 400));
    let (p1, p2) = (src.bool(), src.bool());
    let at = src.size(0, n1 - 5);
    let superseded = src.chance(1, 3);
    ctx.note(format!("host {host_kind}: fade {a} to {b} over {n1} (power {p1}); after {at} fade to {c} over {n2} (power {p2}), replacing a waiting one: {superseded}"));
    host.fade(p1, n1 as f64 / sr, con(b));
    let mut out: Vec<Vec<f32>> = vec![vec![], vec![]];
    let mut go = |src: &mut Src, host: &mut Host, n: usize| {
        let steps = gen_steps(src, n);
        let got = render(host.unit(), &vec![], 0, &steps);
        for k in 0..2 { out[k].extend(&got[k]); }
    };
    if at > 0 { go(src, &mut host, at); }
    if superseded {
        let (m, q) = (src.size(20, 400), src.bool());
        host.fade(q, m as f64 / sr, con(77.0));
    }
    host.fade(p2, n2 as f64 / sr, con(c));
    go(src, &mut host, n1 - at + n2 + 80);
    for k in 0..2 {
        let z = if k == 0 { 1.0f32 } else { 0.5 };
        let o: Vec<f32> = out[k].iter().map(|x| x / z).collect();
        for i in 0..n1 - 2 {
            ensure!(mixed(o[i], a, b, i, n1 as f64, p1), "first-fade", "channel {k} sample {i} of {n1}: from {a} to {b}, got {}", o[i]);
        }
        // The second fade starts within a block of the end of the first one.
        let fits = |s: usize| (n1..s).all(|i| o[i] == b) && (s..o.len()).all(|i| if i < s + n2 - 2 { mixed(o[i], b, c, i - s, n2 as f64, p2) } else if i > s + n2 + 2 { o[i] == c } else { true });
        ensure!((n1 - 2..n1 + 67).any(|s| fits(s)), "second-fade", "channel {k}: no fade from {b} to {c} over {n2} follows the first one: {:?}", o[n1 - 2..].iter().step_by(7).take(24).collect::<Vec<_>>());
    }
    ctx.nontrivial();
    Ok(())
}

/// Fades of any length, up to many seconds, in blocks and in single samples.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let con = |v: f32| -> Box<dyn AudioUnit> { Box::new(dc(v)) };
    let (a, b) = (src.size(1, 4) as f32, -(src.size(1, 4) as f32));
    let host_kind = src.below(3);
    let mut host = match host_kind {
        0 | 1 => {
            let mut net = Net::new(0, 1);
            net.set_sample_rate(sr);
            let id = net.push(con(a));
            net.pipe_output(id);
            if host_kind == 1 { let b = net.backend(); Host::Split(net, b, id) } else { Host::Net(net, id) }
        }
        _ => { let (s, mut b) = Slot::new(con(a)); b.set_sample_rate(sr); Host::Slot(s, b) }
    };
    let n = src.logf(4000.0, 700000.0) as usize;
    let power = src.bool();
    let ticks = src.size(0, std::cmp::min(3000, n / 2));
    ctx.note(format!("host {host_kind} at {sr} Hz: fade {a} to {b} over {n} samples (power {power}), the first {ticks} one by one"));
    host.fade(power, n as f64 / sr, con(b));
    let slack = (2.0 + n as f64 * n as f64 * 6.0e-8) as usize;
    let len = n + slack + 130;
    let mut i = 0;
    let mut buf = BufferVec::new(1);
    let none = BufferVec::new(0);
    let mut one = [0.0f32];
    while i < len {
        let k = if i < ticks { 1 } else { 64 };
        if k == 1 { host.unit().tick(&[], &mut one); buf.channel_f32_mut(0)[0] = one[0]; } else { host.unit().process(64, &none.buffer_ref(), &mut buf.buffer_mut()); }
        for j in 0..k {
            let y = buf.channel_f32(0)[j];
            if i + j > n + slack { ensure!(y == b, "after-fade", "sample {}: expected the new unit's {b}, got {y}", i + j); }
            else if j % 13 == 0 { ensure!(mixed(y, a, b, i + j, n as f64, power), "during-fade", "sample {} of {n}: from {a} to {b}, got {y}", i + j); }
        }
        i += k;
    }
    ctx.nontrivial();
    Ok(())
}

/// A sample rate change while units are fading or waiting reaches all of them.
fn rate(src: &mut Src, ctx: &mut Ctx) -> Res {
    let rates = [44100.0, 48000.0, 22050.0, 96000.0, 16000.0];
    let (sr, sr2) = (*src.pick(&rates), *src.pick(&rates));
    let unit = |sr: f64| -> Box<dyn AudioUnit> { let mut u = Probe::boxed(ProbeModel::new(1, 0, 1, 4)); u.set_sample_rate(sr); u };
    let slot = src.bool();
    let mut host = if slot { let (s, mut b) = Slot::new(unit(sr)); b.set_sample_rate(sr); Host::Slot(s, b) } else {
        let mut net = Net::new(0, 1);
        net.set_sample_rate(sr);
        let id = net.push(unit(sr));
        net.pipe_output(id);
        Host::Net(net, id)
    };
    let waiting = src.size(1, 3);
    let mut log = format!("{} at {sr} Hz; ", if slot { "slot" } else { "network" });
    let mut total = 200;
    for _ in 0..waiting {
        let n = src.size(20, 400);
        host.fade(false, n as f64 / sr, unit(sr));
        total += n * 7 + 70;
        log.push_str(&format!("fade over {n}; "));
    }
    let before = src.size(1, 500);
    let x = vec![];
    let steps = gen_steps(src, before);
    let got = render(host.unit(), &x, 0, &steps);
    for y in &got[0] { ensure!(is_close(*y, (sr / 1.0e6) as f32), "rate-before", "expected a mix of units at {sr} Hz, got {} in {log}", y * 1.0e6); }
    host.unit().set_sample_rate(sr2);
    log.push_str(&format!("play {before}; rate {sr2}; "));
    ctx.note(&log);
    let steps = gen_steps(src, total);
    let got = render(host.unit(), &x, 0, &steps);
    for (i, y) in got[0].iter().enumerate() { ensure!(is_close(*y, (sr2 / 1.0e6) as f32), "rate-after", "sample {i}: expected a mix of units at {sr2} Hz, got {} in {log}", y * 1.0e6); }
    if sr != sr2 { ctx.nontrivial(); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C08",
        rule: "a case is a history of replacement requests (fade shape, time, unit) and rendered stretches on a network, a network backend or a slot; non-trivial when a fade was played (single) or a request arrived during a fade (queued)",
        assumptions: &["a fade may end one or two samples early or late (block rounding), so its phase is known up to that", "a request made during a fade starts when that fade ends, at the latest with the next block"],
        subs: vec![
            Sub { name: "single", quick: 120000, thorough: 3000000, f: single },
            Sub { name: "second", quick: 60000, thorough: 2000000, f: second },
            Sub { name: "long", quick: 400, thorough: 20000, f: long },
            Sub { name: "rate", quick: 20000, thorough: 500000, f: rate },
            Sub { name: "queued", quick: 300000, thorough: 3000000, f: queued },
        ],
    })
}
