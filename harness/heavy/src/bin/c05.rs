//! C05: network expressions equal the same inline graph expressions.
use fundsp::hacker::*;
use vfcore::render::{gen_input, gen_steps, describe_steps, Sig};
use vfcore::*;
use vfgraph::{Eval, Leaves, G};

fn eq(sig: &str, want: &Sig, got: &Sig, tol: f64, log: &str) -> Res {
    for c in 0..want.len() {
        for i in 0..want[c].len() {
            let (a, b) = (want[c][i], got[c][i]);
            ensure!(same(a, b) || ((a as f64 - b as f64).abs() <= tol * (1.0 + a.abs() as f64)), sig, "channel {} sample {}: expected {}, got {}: {}", c, i, a, b, log);
        }
    }
    Ok(())
}

/// A network expression against the inline expression built by the statically typed operators.
fn inline(src: &mut Src, ctx: &mut Ctx) -> Res {
    probe::set_provider(vfnodes::provider());
    let ins = src.size(0, 3);
    let outs = src.size(0, 3);
    let depth = src.size(1, 4);
    let mut next = 0;
    let cat = src.bool();
    let g = vfgraph::gen(src, ins, outs, depth, if cat { Leaves::Catalogue } else { Leaves::Probes }, &mut next);
    ctx.note(g.describe());
    let mut net = vfgraph::build_net(&g, src);
    ensure!(net.inputs() == ins && net.outputs() == outs, "arity", "network has arity {}:{}, expression {}:{}: {}", net.inputs(), net.outputs(), ins, outs, g.describe());
    net.check();
    ensure!(net.error().is_none(), "error", "network reports {:?}: {}", net.error(), g.describe());
    if cat { ctx.label("catalogue leaves"); }
    if g.size() > 2 { ctx.nontrivial(); }
    let n = src.size(1, 150);
    let x = gen_input(src, &vec![kind::Kind::Audio; ins], n);
    let steps = gen_steps(src, n);
    ctx.note(describe_steps(&steps));
    let got = vfcore::render::render(&mut net, &x, 0, &steps);
    if !cat {
        let mut e = Eval::new(&g);
        let want = e.run(&x, 0, n, outs);
        eq("expression", &want, &got, 0.0, &g.describe())?;
        // Once more after a reset.
        net.reset();
        let again = vfcore::render::render(&mut net, &x, 0, &steps);
        return eq("expression-reset", &want, &again, 0.0, &g.describe());
    }
    // Pseudorandom phase seeds depend on the position in the graph by design, so random sources
    // and oscillators are compared only by arity; everything else must agree.
    let seeded = ["noise", "pink", "brown", "mls", "sine64_hz", "lfo", "envelope", "resample_noise", "busi_noise"];
    fn has(g: &G, names: &[&str]) -> bool {
        match g {
            G::Leaf(l) => names.contains(&l.name),
            G::Probe { .. } => false,
            G::Pipe(a, b) | G::Stack(a, b) | G::Branch(a, b) | G::Bus(a, b) | G::Sum(a, b) | G::Sub(a, b) | G::Mul(a, b) => has(a, names) || has(b, names),
            G::Thru(a) | G::Neg(a) | G::AddC(a, _) | G::CAdd(_, a) | G::SubC(a, _) | G::CSub(_, a) | G::MulC(a, _) | G::CMul(_, a) => has(a, names),
        }
    }
    if !has(&g, &seeded) {
        let mut un = vfgraph::build(&g);
        let want = vfcore::render::render(&mut *un, &x, 0, &steps);
        eq("inline-differs", &want, &got, 1.0e-5, &g.describe())?;
    }
    Ok(())
}

/// Wide channel counts, and networks combined with copies of themselves; evaluated by the reference interpreter.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut next = 0;
    let ins = src.size(0, 6);
    let outs = src.size(1, 6);
    fn wgen(src: &mut Src, ins: usize, outs: usize, depth: usize, next: &mut u64) -> G {
        if depth == 0 || src.chance(1, 6) {
            *next += 1;
            return G::Probe { id: *next, ins, outs, mode: src.below(4) as u8 };
        }
        let d = depth - 1;
        let b = |g: G| Box::new(g);
        match src.below(9) {
            0 => { let k = src.size(0, 7); G::Pipe(b(wgen(src, ins, k, d, next)), b(wgen(src, k, outs, d, next))) }
            1 => { let (i, o) = (src.size(0, ins), src.size(0, outs)); G::Stack(b(wgen(src, i, o, d, next)), b(wgen(src, ins - i, outs - o, d, next))) }
            2 => { let o = src.size(0, outs); G::Branch(b(wgen(src, ins, o, d, next)), b(wgen(src, ins, outs - o, d, next))) }
            3 => { let a = wgen(src, ins, outs, d, next); let c = if src.bool() { a.clone() } else { wgen(src, ins, outs, d, next) }; G::Bus(b(a), b(c)) }
            4 | 5 | 6 if outs > 0 => {
                let i = src.size(0, ins);
                let (x, y) = if ins % 2 == 0 && src.bool() { let a = wgen(src, ins / 2, outs, d, next); (a.clone(), a) } else { (wgen(src, i, outs, d, next), wgen(src, ins - i, outs, d, next)) };
                match src.below(3) { 0 => G::Sum(b(x), b(y)), 1 => G::Sub(b(x), b(y)), _ => G::Mul(b(x), b(y)) }
            }
            7 if ins == outs => { let o = src.size(0, 7); G::Thru(b(wgen(src, ins, o, d, next))) }
            _ if outs > 0 => { let c = (src.below(17) as f32 - 8.0) / 8.0; let a = b(wgen(src, ins, outs, d, next)); match src.below(7) { 0 => G::AddC(a, c), 1 => G::CAdd(c, a), 2 => G::SubC(a, c), 3 => G::CSub(c, a), 4 => G::MulC(a, c), 5 => G::CMul(c, a), _ => G::Neg(a) } }
            _ => wgen(src, ins, outs, 0, next),
        }
    }
    let depth = src.size(1, 4);
    let g = wgen(src, ins, outs, depth, &mut next);
    ctx.note(g.describe());
    if g.size() > 3 { ctx.nontrivial(); }
    // Copies of one network are combined with the original where the expression repeats a part.
    fn bn(g: &G, src: &mut Src) -> Net {
        macro_rules! two { ($a:expr, $b:expr) => {{
            let x = bn($a, src);
            let y = if format!("{:?}", $a) == format!("{:?}", $b) { x.clone() } else { bn($b, src) };
            (x, y)
        }} }
        match g {
            G::Pipe(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_pipe(&x, &y)); x >> y }
            G::Stack(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_stack(&x, &y)); x | y }
            G::Branch(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_branch(&x, &y)); x ^ y }
            G::Bus(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_bus(&x, &y)); x & y }
            G::Sum(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_sum(&x, &y)); x + y }
            G::Sub(a, b) => { let (x, y) = two!(a, b); x - y }
            G::Mul(a, b) => { let (x, y) = two!(a, b); assert!(Net::can_product(&x, &y)); x * y }
            G::Thru(a) => !bn(a, src),
            G::Neg(a) => -bn(a, src),
            G::AddC(a, c) => bn(a, src) + *c,
            G::CAdd(c, a) => *c + bn(a, src),
            G::SubC(a, c) => bn(a, src) - *c,
            G::CSub(c, a) => *c - bn(a, src),
            G::MulC(a, c) => bn(a, src) * *c,
            G::CMul(c, a) => *c * bn(a, src),
            _ => Net::wrap(vfgraph::leaf_unit(g)),
        }
    }
    let mut net = bn(&g, src);
    ensure!(net.inputs() == ins && net.outputs() == outs, "arity", "network has arity {}:{}, expression {}:{}: {}", net.inputs(), net.outputs(), ins, outs, g.describe());
    net.check();
    ensure!(net.error().is_none(), "error", "network reports {:?}: {}", net.error(), g.describe());
    let n = src.size(1, 100);
    let x = gen_input(src, &vec![kind::Kind::Audio; ins], n);
    let steps = gen_steps(src, n);
    let got = vfcore::render::render(&mut net, &x, 0, &steps);
    let want = Eval::new(&g).run(&x, 0, n, outs);
    eq("wide", &want, &got, 0.0, &g.describe())
}

/// Operand networks wired by hand, with parts left unconnected or passed straight through. What a combined network plays follows
/// from what its operands play by themselves.
enum T {
    Leaf(Net),
    One(u8, f32, Box<T>),
    Two(u8, Box<T>, Box<T>),
}

impl T {
    fn build(&self, src: &mut Src) -> Net {
        match self {
            T::Leaf(n) => n.clone(),
            T::One(k, c, a) => {
                let a = a.build(src);
                match k {
                    0 => { assert!(Net::can_thru(&a)); if src.bool() { Net::thru(a) } else { !a } }
                    1 => -a,
                    2 => a + *c,
                    3 => *c + a,
                    4 => a - *c,
                    5 => *c - a,
                    6 => a * *c,
                    _ => *c * a,
                }
            }
            T::Two(k, a, b) => {
                let (a, b) = (a.build(src), b.build(src));
                let named = src.bool();
                match k {
                    0 => { assert!(Net::can_pipe(&a, &b)); if named { Net::pipe(a, b) } else { a >> b } }
                    1 => { assert!(Net::can_stack(&a, &b)); if named { Net::stack(a, b) } else { a | b } }
                    2 => { assert!(Net::can_branch(&a, &b)); if named { Net::branch(a, b) } else { a ^ b } }
                    3 => { assert!(Net::can_bus(&a, &b)); if named { Net::bus(a, b) } else { a & b } }
                    4 => { assert!(Net::can_sum(&a, &b)); if named { Net::sum(a, b) } else { a + b } }
                    5 => { assert!(Net::can_product(&a, &b)); if named { Net::product(a, b) } else { a * b } }
                    _ => { assert!(Net::can_binary(&a, &b)); if named { Net::binary(a, b, FrameSub::new()) } else { a - b } }
                }
            }
        }
    }
    fn arity(&self) -> (usize, usize) {
        match self {
            T::Leaf(n) => (n.inputs(), n.outputs()),
            T::One(0, _, a) => { let (i, _) = a.arity(); (i, i) }
            T::One(_, _, a) => a.arity(),
            T::Two(k, a, b) => {
                let (x, y) = (a.arity(), b.arity());
                match k { 0 => (x.0, y.1), 1 => (x.0 + y.0, x.1 + y.1), 2 => (x.0, x.1 + y.1), 3 => x, _ => (x.0 + y.0, x.1) }
            }
        }
    }
    fn play(&self, x: &[Vec<f32>], n: usize) -> Sig {
        match self {
            T::Leaf(net) => {
                let mut net = net.clone();
                let mut i = vec![0.0; net.inputs()];
                let mut o = vec![0.0; net.outputs()];
                let mut y = vec![vec![0.0; n]; net.outputs()];
                for t in 0..n {
                    for c in 0..i.len() { i[c] = x[c][t]; }
                    net.tick(&i, &mut o);
                    for c in 0..o.len() { y[c][t] = o[c]; }
                }
                y
            }
            T::One(0, _, a) => {
                let mut y = a.play(x, n);
                y.truncate(x.len());
                for c in y.len()..x.len() { y.push(x[c].clone()); }
                y
            }
            T::One(k, c, a) => {
                let mut y = a.play(x, n);
                for v in y.iter_mut().flatten() {
                    *v = match k { 1 => -*v, 2 | 3 => *v + *c, 4 => *v - *c, 5 => *c - *v, _ => *v * *c };
                }
                y
            }
            T::Two(0, a, b) => b.play(&a.play(x, n), n),
            T::Two(2, a, b) => { let mut y = a.play(x, n); y.extend(b.play(x, n)); y }
            T::Two(3, a, b) => join(a.play(x, n), b.play(x, n), |p, q| p + q),
            T::Two(k, a, b) => {
                let (l, r) = x.split_at(a.arity().0);
                let mut y = a.play(l, n);
                let z = b.play(r, n);
                match k { 1 => { y.extend(z); y } 4 => join(y, z, |p, q| p + q), 5 => join(y, z, |p, q| p * q), _ => join(y, z, |p, q| p - q) }
            }
        }
    }
}

fn join(mut a: Sig, b: Sig, f: fn(f32, f32) -> f32) -> Sig {
    for (p, q) in a.iter_mut().flatten().zip(b.iter().flatten()) { *p = f(*p, *q); }
    a
}

fn partial(src: &mut Src, ctx: &mut Ctx) -> Res {
    fn wired(src: &mut Src, ins: usize, outs: usize, next: &mut u64, log: &mut String) -> T {
        let mut net = Net::new(ins, outs);
        let mut nodes: Vec<(NodeId, usize)> = vec![];
        log.push_str(&format!("net({ins}:{outs}"));
        fn source(src: &mut Src, ins: usize, nodes: &[(NodeId, usize)], log: &mut String) -> Source {
            match src.below(4) {
                0 => { log.push_str(" -"); Source::Zero }
                1 if ins > 0 => { let i = src.below(ins as u64) as usize; log.push_str(&format!(" in{i}")); Source::Global(i) }
                _ => {
                    if nodes.is_empty() { log.push_str(" -"); return Source::Zero; }
                    let k = src.below(nodes.len() as u64) as usize;
                    if nodes[k].1 == 0 { log.push_str(" -"); return Source::Zero; }
                    let p = src.below(nodes[k].1 as u64) as usize;
                    log.push_str(&format!(" {k}.{p}"));
                    Source::Local(nodes[k].0, p)
                }
            }
        }
        for _ in 0..src.size(0, 3) {
            *next += 1;
            let (i, o, m) = (src.size(0, 3), src.size(0, 3), src.below(4) as u8);
            let id = net.push(probe::Probe::boxed(probe::ProbeModel::new(*next, i, o, m)));
            log.push_str(&format!("; {}:{o} m{m} <-", nodes.len()));
            for c in 0..i { let s = source(src, ins, &nodes, log); net.set_source(id, c, s); }
            nodes.push((id, o));
        }
        log.push_str("; out <-");
        for c in 0..outs { let s = source(src, ins, &nodes, log); net.set_output_source(c, s); }
        log.push(')');
        T::Leaf(net)
    }
    fn pgen(src: &mut Src, ins: usize, outs: usize, depth: usize, next: &mut u64, log: &mut String) -> T {
        if depth == 0 || src.chance(1, 8) { return wired(src, ins, outs, next, log); }
        let d = depth - 1;
        log.push('(');
        let t = match src.below(8) {
            0 | 1 => { let k = src.size(0, 4); let a = pgen(src, ins, k, d, next, log); log.push_str(" >> "); T::Two(0, Box::new(a), Box::new(pgen(src, k, outs, d, next, log))) }
            2 => { let (i, o) = (src.size(0, ins), src.size(0, outs)); let a = pgen(src, i, o, d, next, log); log.push_str(" | "); T::Two(1, Box::new(a), Box::new(pgen(src, ins - i, outs - o, d, next, log))) }
            3 => { let o = src.size(0, outs); let a = pgen(src, ins, o, d, next, log); log.push_str(" ^ "); T::Two(2, Box::new(a), Box::new(pgen(src, ins, outs - o, d, next, log))) }
            4 => { let a = pgen(src, ins, outs, d, next, log); log.push_str(" & "); T::Two(3, Box::new(a), Box::new(pgen(src, ins, outs, d, next, log))) }
            5 => {
                let k = 4 + src.below(3) as u8;
                let i = src.size(0, ins);
                let a = pgen(src, i, outs, d, next, log);
                log.push_str([" + ", " * ", " - "][k as usize - 4]);
                T::Two(k, Box::new(a), Box::new(pgen(src, ins - i, outs, d, next, log)))
            }
            6 if ins == outs => { log.push('!'); let o = src.size(0, 4); T::One(0, 0.0, Box::new(pgen(src, ins, o, d, next, log))) }
            _ => { let (k, c) = (1 + src.below(7) as u8, (src.below(17) as f32 - 8.0) / 8.0); log.push_str(&format!("op{k}[{c}] ")); T::One(k, c, Box::new(pgen(src, ins, outs, d, next, log))) }
        };
        log.push(')');
        t
    }
    let (ins, outs, depth) = (src.size(0, 4), src.size(1, 4), src.size(1, 3));
    let (mut next, mut log) = (0, String::new());
    let t = pgen(src, ins, outs, depth, &mut next, &mut log);
    ctx.note(&log);
    if matches!(t, T::Leaf(_)) { return Ok(()); }
    ctx.nontrivial();
    let mut net = t.build(src);
    ensure!((net.inputs(), net.outputs()) == (ins, outs) && t.arity() == (ins, outs), "partial-arity", "network has arity {}:{}, expression {}:{}: {}", net.inputs(), net.outputs(), ins, outs, log);
    net.check();
    ensure!(net.error().is_none(), "partial-error", "network reports {:?}: {}", net.error(), log);
    let n = src.size(1, 100);
    let x = gen_input(src, &vec![kind::Kind::Audio; ins], n);
    let steps = gen_steps(src, n);
    let got = vfcore::render::render(&mut net, &x, 0, &steps);
    let want = t.play(&x, n);
    eq("partial", &want, &got, 0.0, &log)
}

fn main() {
    main_check(Check {
        id: "C05",
        rule: "a case is an operator expression built from networks (with some operands left inline), an input and a partition; non-trivial when it contains at least one operator over two operands",
        assumptions: &["random sources and oscillators take their phase seed from their position in the graph, so their samples are compared only inside one representation"],
        subs: vec![
            Sub { name: "inline", quick: 500000, thorough: 6000000, f: inline },
            Sub { name: "wide", quick: 500000, thorough: 6000000, f: wide },
            Sub { name: "partial", quick: 200000, thorough: 4000000, f: partial },
        ],
    })
}
