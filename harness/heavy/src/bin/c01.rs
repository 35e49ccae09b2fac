//! C01: sample-by-sample and block rendering agree for any partition.
use vfcore::render::*;
use vfcore::*;
use vfnodes as nodes;

fn rates(src: &mut Src) -> f64 {
    *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0, 32000.0, 44100.5])
}

/// Compares two renderings; phase-like outputs compare modulo one.
fn compare(name: &str, a: &Sig, b: &Sig, tol: f64, phase: bool, what: &str) -> Res {
    let scale = peak(a).max(peak(b)).max(1.0);
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            let (x, y) = (a[c][i] as f64, b[c][i] as f64);
            let mut ok = close(x, y, tol * scale, 0.0);
            if !ok && phase {
                let d = (x - y).abs();
                ok = (d - 1.0).abs() <= tol * scale;
            }
            ensure!(ok, format!("modes-differ {}", name), "{}: channel {} sample {}: {} by ticks, {} in blocks ({})", name, c, i, x, y, what);
        }
    }
    Ok(())
}

fn leaf_modes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spec = nodes::gen_spec(src);
    let mut l = nodes::build(&spec);
    let sr = rates(src);
    let n = if src.chance(1, 16) { src.size(400, 3000) } else { src.size(1, 400) };
    let steps = gen_steps(src, n);
    let input = gen_input(src, &l.ins, n);
    ctx.note(format!("{} sr={} n={} steps={}", spec.describe(), sr, n, describe_steps(&steps)));
    if steps.len() > 1 && steps.iter().any(|s| s.len() % 8 != 0) { ctx.nontrivial(); }
    l.unit.set_sample_rate(sr);
    l.unit.reset();
    let mut u2 = l.unit.clone();
    let a = render(&mut *l.unit, &input, 0, &all_ticks(n));
    let b = render(&mut *u2, &input, 0, &steps);
    let tol = l.tol * (n as f64 / 400.0).max(1.0);
    compare(spec.name, &a, &b, tol, l.phase, &format!("peak {}", peak(&a)))
}

fn graph_modes(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let ins = src.size(0, 3);
    let outs = src.size(1, 3);
    let mut next = 0;
    let g = vfgraph::gen(src, ins, outs, 4, vfgraph::Leaves::Catalogue, &mut next);
    let sr = rates(src);
    let n = src.size(1, 300);
    let steps = gen_steps(src, n);
    let input = gen_input(src, &vec![kind::Kind::Audio; ins], n);
    ctx.note(format!("{} sr={} n={} steps={}", g.describe(), sr, n, describe_steps(&steps)));
    if g.size() > 3 && steps.len() > 1 { ctx.nontrivial(); }
    let mut u = vfgraph::build(&g);
    u.set_sample_rate(sr);
    u.reset();
    let mut u2 = u.clone();
    let a = render(&mut *u, &input, 0, &all_ticks(n));
    let b = render(&mut *u2, &input, 0, &steps);
    compare("graph", &a, &b, 4.0e-3, false, "")
}

fn main() {
    main_check(Check {
        id: "C01",
        rule: "a case is a unit or expression graph with generated parameters, an input signal, a sample rate and a partition into blocks/ticks; non-trivial when the partition has several steps and a size that is not a multiple of the vector width (leaf) or the graph has more than three nodes (graph)",
        assumptions: &["tolerances per unit are stated in the catalogue (vector and scalar transcendental functions round differently)"],
        subs: vec![
            Sub { name: "leaf_modes", quick: 1200000, thorough: 20000000, f: leaf_modes },
            Sub { name: "graph_modes", quick: 500000, thorough: 10000000, f: graph_modes },
        ],
    })
}
