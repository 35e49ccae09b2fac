//! C06: a network reports a cycle exactly when its connections form one.
use fundsp::hacker::*;
use vfcore::kind::Kind;
use vfcore::render::*;
use vfcore::*;
use vflite::netmodel::*;

fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let maxc = src.size(1, 3);
    let mut p = Pair::new(src, maxc);
    let first = src.size(1, 8);
    for _ in 0..first { p.edit(src, Op::Push, false, false)?; }
    let count = if src.chance(1, 10) { src.size(30, 100) } else { src.size(1, 30) };
    let mut cyc = 0;
    let mut flips = 0;
    let mut was = false;
    for _ in 0..count {
        let op = *src.pick(CYCLE_OPS);
        p.edit(src, op, false, false)?;
        if src.bool() { continue; }
        let is = !p.m.acyclic();
        if is { cyc += 1; }
        if is != was { flips += 1; was = is; }
        match src.below(3) {
            // Rendering a network with a cycle is allowed; the error must still be there afterwards.
            0 => {
                let n = src.size(1, 20);
                let x = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
                let steps = gen_steps(src, n);
                if is {
                    render(&mut p.net, &x, 0, &steps);
                    for n in p.m.nodes.values_mut() { n.unit.reset(); }
                    p.net.reset();
                } else {
                    let want = p.m.run(&x, n);
                    let got = render(&mut p.net, &x, 0, &steps);
                    for c in 0..want.len() { for i in 0..n {
                        ensure!(same(want[c][i], got[c][i]), "output-after-cycle", "channel {} sample {}: expected {}, got {} after: {}", c, i, want[c][i], got[c][i], p.log);
                    } }
                }
                p.log.push_str("; play");
            }
            _ => p.queries()?,
        }
        let e = p.net.error().clone();
        let reported = matches!(e, Some(NetError::Cycle));
        ensure!(reported == is, if is { "missed-cycle" } else { "false-cycle" }, "error() is {:?} but the connections {} a cycle: {}", e, if is { "form" } else { "do not form" }, p.log);
        // A copy reports the same.
        if src.chance(1, 6) {
            let mut c = p.net.clone();
            ensure!(c.error().is_some() == is, "clone-error", "a copy reports {:?}, cycle: {} after: {}", c.error(), is, p.log);
        }
    }
    ctx.note(&p.log);
    if cyc > 0 { ctx.nontrivial(); }
    if flips > 1 { ctx.label("cycle made and broken"); }
    Ok(())
}

/// Large random graphs: dense and sparse, given edge by edge.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(2, 40);
    let mut net = Net::new(1, 1);
    let mut m = NetModel::new(1, 1);
    let mut ids = Vec::new();
    let ins = src.size(1, 4);
    for k in 0..n {
        let p = probe::ProbeModel::new(k as u64 + 1, ins, 2, src.below(4) as u8);
        m.push(k as u64, p.clone());
        ids.push(net.push(probe::Probe::boxed(p)));
    }
    // Mostly forward edges along a hidden order, with a few arbitrary ones.
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = src.below(i as u64 + 1) as usize; perm.swap(i, j); }
    let edges = src.size(1, n * ins);
    let back = src.below(3);
    let mut log = format!("{} nodes x {} inputs:", n, ins);
    for _ in 0..edges {
        let (mut a, mut b) = (src.below(n as u64) as usize, src.below(n as u64) as usize);
        if a == b { continue; }
        if perm[a] > perm[b] && !(back > 0 && src.chance(back, n as u64 * 2)) { std::mem::swap(&mut a, &mut b); }
        let (p, q) = (src.below(2) as usize, src.below(ins as u64) as usize);
        net.connect(ids[a], p, ids[b], q);
        m.nodes.get_mut(&(b as u64)).unwrap().src[q] = MSrc::Node(a as u64, p);
        if log.len() < 2000 { log.push_str(&format!(" {}.{}->{}.{}", a, p, b, q)); }
    }
    let is = !m.acyclic();
    ctx.note(&log);
    if is { ctx.label("cyclic"); } else { ctx.label("acyclic"); }
    if n > 3 { ctx.nontrivial(); }
    let o = src.below(n as u64) as usize;
    net.connect_output(ids[o], 1, 0);
    m.out[0] = MSrc::Node(o as u64, 1);
    let e = net.error().is_some();
    ensure!(e == is, if is { "missed-cycle" } else { "false-cycle" }, "reported {} but the connections {} a cycle: {}", e, if is { "form" } else { "do not form" }, log);
    if !is {
        let x = gen_input(src, &[Kind::Audio], 20);
        let steps = gen_steps(src, 20);
        let want = m.run(&x, 20);
        let got = render(&mut net, &x, 0, &steps);
        for i in 0..20 { ensure!(same(want[0][i], got[0][i]), "output", "sample {}: expected {}, got {}: {}", i, want[0][i], got[0][i], log); }
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C06",
        rule: "a case is a history of arbitrary edits (or a large random graph) with the error state read after many of them; non-trivial when a cycle existed at some point (history) or more than three nodes (graph)",
        assumptions: &["the output of a network that contains a cycle is unspecified; only safety and the error state are checked then"],
        subs: vec![
            Sub { name: "histories", quick: 250000, thorough: 12000000, f: histories },
            Sub { name: "large", quick: 100000, thorough: 4000000, f: large },
        ],
    })
}
