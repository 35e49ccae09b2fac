//! C02: reset replays identically; clones are independent equals.
use vfcore::render::*;
use vfcore::*;
use vfnodes as nodes;
use fundsp::hacker::AudioUnit;

type Un = Box<dyn AudioUnit>;

fn gen_rate(src: &mut Src) -> f64 {
    *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0, 32000.0])
}

/// A unit (catalogue entry or composite graph): input kinds, builder, description.
fn gen_unit(src: &mut Src, ctx: &mut Ctx) -> (Vec<kind::Kind>, Box<dyn Fn() -> Un>, String) {
    vfcore::probe::set_provider(nodes::provider());
    if src.chance(1, 3) {
        let ins = src.size(0, 3);
        let outs = src.size(1, 3);
        let mut next = 0;
        let g = vfgraph::gen(src, ins, outs, 3, vfgraph::Leaves::Catalogue, &mut next);
        ctx.note(g.describe());
        ctx.label("graph");
        let net = src.chance(1, 4);
        (vec![kind::Kind::Audio; ins], Box::new(move || {
            let u = vfgraph::build(&g);
            if net { Box::new(fundsp::hacker::Net::wrap(u)) } else { u }
        }), "graph".into())
    } else {
        let spec = nodes::gen_spec(src);
        ctx.note(spec.describe());
        let ins = nodes::build(&spec).ins;
        let name = spec.name.to_string();
        (ins, Box::new(move || nodes::build(&spec).unit), name)
    }
}

fn eq(sig: &str, what: &str, a: &Sig, b: &Sig) -> Res {
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            ensure!(same(a[c][i], b[c][i]), format!("{} {}", what, sig), "{} {}: channel {} sample {}: expected {}, got {}", what, sig, c, i, a[c][i], b[c][i]);
        }
    }
    Ok(())
}

fn reset_replay(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (kinds, make, name) = gen_unit(src, ctx);
    let sr = gen_rate(src);
    let set_rate = src.bool();
    let n1 = if src.chance(1, 8) { src.size(300, 2500) } else { src.size(0, 300) };
    let n2 = if src.chance(1, 8) { src.size(300, 2500) } else { src.size(1, 300) };
    let hist = gen_steps(src, n1);
    let steps = gen_steps(src, n2);
    let i1 = gen_input(src, &kinds, n1);
    let i2 = gen_input(src, &kinds, n2);
    ctx.note(format!("rate={} history={} then reset, n={} steps={}", if set_rate { sr } else { 0.0 }, n1, n2, describe_steps(&steps)));
    if n1 > 0 && n2 > 8 { ctx.nontrivial(); }
    let mut fresh = make();
    let mut used = make();
    if set_rate { fresh.set_sample_rate(sr); used.set_sample_rate(sr); }
    if src.bool() { used.allocate(); }
    let first = render(&mut *fresh, &i2, 0, &steps);
    render(&mut *used, &i1, 0, &hist);
    used.reset();
    let again = render(&mut *used, &i2, 0, &steps);
    eq(&name, "reset-differs", &first, &again)?;
    // A second reset, from the other history.
    fresh.reset();
    let third = render(&mut *fresh, &i2, 0, &steps);
    eq(&name, "reset-differs", &first, &third)
}

fn clone_equal(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (kinds, make, name) = gen_unit(src, ctx);
    let sr = gen_rate(src);
    let n1 = src.size(0, 300);
    let n2 = src.size(1, 200);
    let hist = gen_steps(src, n1);
    let steps = gen_steps(src, n2);
    let i1 = gen_input(src, &kinds, n1);
    let i2 = gen_input(src, &kinds, n2);
    let i3 = gen_input(src, &kinds, n2);
    ctx.note(format!("history={} n={} steps={}", n1, n2, describe_steps(&steps)));
    if n1 > 0 && n2 > 8 { ctx.nontrivial(); }
    let mut u = make();
    u.set_sample_rate(sr);
    // Reference: the same history and continuation without any copy being made.
    let mut r = make();
    r.set_sample_rate(sr);
    render(&mut *u, &i1, 0, &hist);
    render(&mut *r, &i1, 0, &hist);
    let want = render(&mut *r, &i2, 0, &steps);
    let mut c = u.clone();
    let mut d = u.clone();
    // Interleave copy and original step by step; the original gets another input.
    let mut got: Sig = vec![Vec::new(); c.outputs()];
    let mut orig: Sig = vec![Vec::new(); c.outputs()];
    let same_input = src.bool();
    let mut pos = 0;
    for s in &steps {
        let o = render(&mut *u, if same_input { &i2 } else { &i3 }, pos, &[*s]);
        for (x, y) in orig.iter_mut().zip(o) { x.extend(y); }
        let o = render(&mut *c, &i2, pos, &[*s]);
        for (x, y) in got.iter_mut().zip(o) { x.extend(y); }
        pos += s.len();
        if src.chance(1, 8) { d.reset(); }
    }
    eq(&name, "clone-differs", &want, &got)?;
    if same_input { eq(&name, "original-disturbed", &want, &orig)?; }
    // A copy survives the original and resets to the same start.
    drop(u);
    c.reset();
    let mut f = make();
    f.set_sample_rate(sr);
    let a = render(&mut *f, &i2, 0, &steps);
    let b = render(&mut *c, &i2, 0, &steps);
    eq(&name, "clone-reset-differs", &a, &b)
}

/// Live objects with a history behind them (networks with running and waiting crossfades, slots,
/// sequencers with active, future and past events, and their backends): a clone taken at any moment goes
/// on exactly like the original and does not disturb it.
fn playing(src: &mut Src, ctx: &mut Ctx) -> Res {
    use fundsp::hacker::{Fade, Net, Sequencer, Slot};
    use vfcore::probe::{Probe, ProbeModel};
    let kind = src.below(5);
    ctx.label(["network", "network backend", "slot backend", "sequencer", "sequencer backend"][kind as usize]);
    let outs = src.size(1, 2);
    let sr = gen_rate(src);
    let mut id = 1;
    let mut probe = |src: &mut Src| -> Un { id += 1; Probe::boxed(ProbeModel::new(id, 0, outs, src.below(4) as u8)) };
    let fade = |src: &mut Src| if src.bool() { Fade::Power } else { Fade::Smooth };
    let mut log = format!("{outs} outputs at {sr}");
    let ops = src.size(1, 6);
    let mut events = vec![];
    let mut unit: Un;
    let mut twin: Un;
    match kind {
        0 | 1 => {
            let mut net = Net::new(0, outs);
            net.set_sample_rate(sr);
            let node = net.push(probe(src));
            net.pipe_output(node);
            let mut back = if kind == 1 { Some(net.backend()) } else { None };
            for _ in 0..ops {
                if src.chance(2, 3) {
                    let t = src.size(1, 400);
                    log.push_str(&format!("; crossfade {t}"));
                    let (f, p) = (fade(src), probe(src));
                    net.crossfade(node, f, (t as f64 / sr) as f32, p);
                    if kind == 1 { net.commit(); }
                }
                let n = src.size(1, 200);
                let steps = gen_steps(src, n);
                log.push_str(&format!("; play {}", describe_steps(&steps)));
                match &mut back { Some(b) => { render(b, &vec![], 0, &steps); } None => { render(&mut net, &vec![], 0, &steps); } }
            }
            match back { Some(b) => { twin = Box::new(b.clone()); unit = Box::new(b); } None => { twin = Box::new(net.clone()); unit = Box::new(net); } }
        }
        2 => {
            let (mut slot, mut back) = Slot::new(probe(src));
            back.set_sample_rate(sr);
            for _ in 0..ops {
                if src.chance(2, 3) {
                    let t = src.size(1, 400);
                    log.push_str(&format!("; set {t}"));
                    let (f, mut p) = (fade(src), probe(src));
                    p.set_sample_rate(sr);
                    slot.set(f, t as f64 / sr, p);
                }
                let n = src.size(1, 200);
                let steps = gen_steps(src, n);
                log.push_str(&format!("; play {}", describe_steps(&steps)));
                render(&mut back, &vec![], 0, &steps);
            }
            twin = Box::new(back.clone());
            unit = Box::new(back);
        }
        _ => {
            let replay = src.bool();
            let mut seq = Sequencer::new(replay, outs);
            seq.set_sample_rate(sr);
            let mut back = if kind == 4 { Some(seq.backend()) } else { None };
            let mut now = 0;
            for _ in 0..ops {
                for _ in 0..src.size(0, 3) {
                    let (a, b) = (now + src.size(0, 300), src.size(1, 400));
                    let (fi, fo) = (src.size(0, b - 1), src.size(0, b - 1));
                    log.push_str(&format!("; event {a} for {b} fades {fi} {fo}"));
                    let (f, p) = (fade(src), probe(src));
                    events.push(seq.push_duration(a as f64 / sr, b as f64 / sr, f, fi as f64 / sr, fo as f64 / sr, p));
                }
                if !events.is_empty() && src.chance(1, 3) {
                    let e = *src.pick(&events);
                    let (t, f) = (now + src.size(0, 300), src.size(0, 100));
                    log.push_str(&format!("; edit end {t} fade {f}"));
                    seq.edit(e, t as f64 / sr, f as f64 / sr);
                }
                let n = src.size(1, 200);
                let steps = gen_steps(src, n);
                log.push_str(&format!("; play {}", describe_steps(&steps)));
                match &mut back { Some(b) => { render(b, &vec![], 0, &steps); } None => { render(&mut seq, &vec![], 0, &steps); } }
                now += n;
            }
            match back { Some(b) => { twin = Box::new(b.clone()); unit = Box::new(b); } None => { twin = Box::new(seq.clone()); unit = Box::new(seq); } }
        }
    }
    let n = src.size(1, 700);
    let steps = gen_steps(src, n);
    log.push_str(&format!("; clone, play {}", describe_steps(&steps)));
    let order = src.bool();
    let again = src.bool();
    ctx.note(&log);
    ctx.nontrivial();
    let (a, b) = if order { let b = render(&mut *twin, &vec![], 0, &steps); (render(&mut *unit, &vec![], 0, &steps), b) } else { let a = render(&mut *unit, &vec![], 0, &steps); (a, render(&mut *twin, &vec![], 0, &steps)) };
    eq("playing", "a clone of a playing object", &a, &b)?;
    if again {
        let mut third = unit.clone();
        let x = render(&mut *unit, &vec![], 0, &steps);
        eq("playing", "a second clone", &x, &render(&mut *third, &vec![], 0, &steps))?;
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C02",
        rule: "a case is a unit or composite graph with parameters, a history (input and partition), and a continuation; non-trivial when the history is non-empty and the continuation is longer than one vector",
        assumptions: &["rendering is compared bit for bit because both sides execute the same steps"],
        subs: vec![
            Sub { name: "reset_replay", quick: 500000, thorough: 20000000, f: reset_replay },
            Sub { name: "clone_equal", quick: 400000, thorough: 16000000, f: clone_equal },
            Sub { name: "playing", quick: 60000, thorough: 2000000, f: playing },
        ],
    })
}
