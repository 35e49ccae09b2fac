//! C04: a dynamic network computes the graph that its edits describe.
use fundsp::hacker::AudioUnit;
use vfcore::kind::Kind;
use vfcore::render::*;
use vfcore::*;
use vflite::netmodel::*;

fn same_sig(a: &Sig, b: &Sig, p: &Pair) -> Res {
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            ensure!(same(a[c][i], b[c][i]), "output", "channel {} sample {}: expected {}, got {} after: {}", c, i, a[c][i], b[c][i], p.log);
        }
    }
    Ok(())
}

fn play(src: &mut Src, p: &mut Pair, n: usize) -> Res {
    let input = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
    let steps = gen_steps(src, n);
    let want = p.m.run(&input, n);
    let got = render(&mut p.net, &input, 0, &steps);
    p.log.push_str(&format!("; play {}", n));
    same_sig(&want, &got, p)
}

fn edits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let maxc = src.size(1, 5);
    let mut p = Pair::new(src, maxc);
    let count = if src.chance(1, 10) { src.size(30, 120) } else { src.size(1, 30) };
    let mut rendered = 0;
    let mut applied = 0;
    for _ in 0..count {
        match src.below(12) {
            0 | 1 => { let n = src.size(1, 70); play(src, &mut p, n)?; rendered += 1; }
            2 => { p.queries()?; }
            4 if src.chance(1, 4) => { let r = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]); p.set_rate(r); }
            3 if src.chance(1, 3) => {
                // Continue with a copy; the original is played elsewhere and must not disturb it.
                let mut old = std::mem::replace(&mut p.net, fundsp::hacker::Net::new(0, 0));
                p.net = old.clone();
                let n = src.size(1, 20);
                let x = gen_input(src, &vec![Kind::Audio; p.m.ins], n);
                render(&mut old, &x, 0, &all_ticks(n));
                if src.bool() { old.reset(); }
                p.log.push_str("; clone");
            }
            _ => {
                let op = *src.pick(OPS);
                if p.edit(src, op, true, true)? { applied += 1; }
            }
        }
    }
    p.queries()?;
    ensure!(p.net.error().is_none(), "false-cycle", "cycle reported for an acyclic network: {}", p.log);
    let n = src.size(1, 130);
    play(src, &mut p, n)?;
    ctx.note(&p.log);
    if p.m.nodes.len() >= 2 && applied >= 4 { ctx.nontrivial(); }
    if rendered > 0 { ctx.label("edited while playing"); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C04",
        rule: "a case is a sequence of edits, queries, resets, copies and rendered stretches of a network of probes; non-trivial when at least four edits were applied and two nodes remain",
        assumptions: &["edits that would close a cycle are left to C06"],
        subs: vec![Sub { name: "edits", quick: 250000, thorough: 12000000, f: edits }],
    })
}
