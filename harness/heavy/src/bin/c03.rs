//! C03: graph operators, their n-ary forms and channel utilities against a reference evaluator.
use fundsp::hacker as h;
use fundsp::hacker32 as g;
use fundsp::prelude as p;
use fundsp::hacker::{AudioUnit, Frame, U1, U2, U3, U4, U5, U7, U8, U16};
use fundsp::prelude::unit;
use vfcore::probe::{Probe, ProbeModel};
use vfcore::render::*;
use vfcore::*;

type Un = Box<dyn AudioUnit>;

fn exact(sig: &str, want: &Sig, got: &Sig, tol: f64, what: &str) -> Res {
    ensure!(want.len() == got.len(), format!("{} channel count", sig), "{}: {} channels expected, {} found", what, want.len(), got.len());
    if let Some((c, i, a, b)) = diff(want, got, tol) {
        return fail(format!("{} differs", sig), format!("{}: channel {} sample {}: documented {} but rendered {}", what, c, i, a, b));
    }
    Ok(())
}

fn expr(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ins = src.size(0, 3);
    let outs = src.size(0, 3);
    let mut next = 0;
    let depth = src.size(1, 5);
    let e = vfgraph::gen(src, ins, outs, depth, vfgraph::Leaves::Probes, &mut next);
    let n = src.size(1, 140);
    let steps = gen_steps(src, n);
    let input = gen_input(src, &vec![kind::Kind::Audio; ins], n);
    ctx.note(format!("{} n={} steps={}", e.describe(), n, describe_steps(&steps)));
    if e.size() > 2 { ctx.nontrivial(); }
    let mut u = vfgraph::build(&e);
    ensure!(u.inputs() == ins && u.outputs() == outs, "expr arity", "{} has arity {}:{} instead of {}:{}", e.describe(), u.inputs(), u.outputs(), ins, outs);
    let want = vfgraph::Eval::new(&e).run(&input, 0, n, outs);
    let mut v = u.clone();
    let got = render(&mut *u, &input, 0, &all_ticks(n));
    let tol = 1.0e-6 * peak(&want).max(1.0);
    exact("expr tick", &want, &got, tol, "ticks")?;
    let got = render(&mut *v, &input, 0, &steps);
    exact("expr process", &want, &got, tol, "blocks")
}

fn pm(base: u64, i: u64, ins: usize, outs: usize, mode: u8) -> ProbeModel {
    ProbeModel::new(base * 100 + i, ins, outs, mode)
}

/// Component description for n-ary forms.
#[derive(Clone, Copy)]
struct Comp { base: u64, mode: u8, neg: bool }

macro_rules! mk {
    ($I:ty, $O:ty, $ii:expr, $oo:expr, $c:expr) => { move |i: u64| unit::<$I, $O>(Probe::boxed(pm($c.base, i, $ii, $oo, $c.mode))) };
}
/// From fractional generator: the index is recovered from the fraction.
macro_rules! mkf {
    ($I:ty, $O:ty, $ii:expr, $oo:expr, $c:expr, $n:expr, $F:ty) => { move |x: $F| unit::<$I, $O>(Probe::boxed(pm($c.base, (x as f64 * ($n - 1) as f64).round() as u64 + if $n == 1 && (x - 0.5).abs() > 1.0e-9 { 50 } else { 0 }, $ii, $oo, $c.mode))) };
}

fn multi(src: &mut Src, ctx: &mut Ctx) -> Res {
    let op = src.below(10);
    let ni = src.below(6);
    let arity = src.below(4);
    let env = src.below(3);
    let c = Comp { base: 1 + src.below(50), mode: src.below(4) as u8, neg: false };
    let _ = c.neg;
    let n = [1usize, 2, 3, 5, 8, 16][ni as usize];
    let (ii, oo) = [(1usize, 1usize), (1, 2), (2, 1), (2, 2)][arity as usize];
    macro_rules! env {
        ($m:ident, $N:ident, $I:ident, $O:ident, $F:ty, $turbo:tt) => {
            match op {
                0 => Box::new($m::busi::<$N, _, _>(mk!($I, $O, ii, oo, c))) as Un,
                2 => Box::new($m::stacki::<$N, _, _>(mk!($I, $O, ii, oo, c))),
                4 => Box::new($m::branchi::<$N, _, _>(mk!($I, $O, ii, oo, c))),
                6 => Box::new($m::sumi::<$N, _, _>(mk!($I, $O, ii, oo, c))),
                1 => env!(@f $m busf $N, $I, $O, $F, $turbo),
                3 => env!(@f $m stackf $N, $I, $O, $F, $turbo),
                5 => env!(@f $m branchf $N, $I, $O, $F, $turbo),
                7 => env!(@f $m sumf $N, $I, $O, $F, $turbo),
                8 => Box::new($m::pipei::<$N, _, _>(mk!($I, $I, ii, ii, c))),
                _ => env!(@f $m pipef $N, $I, $I, $F, $turbo),
            }
        };
        (@f $m:ident $f:ident $N:ident, $I:ident, $O:ident, $F:ty, three) => { Box::new($m::$f::<$N, _, _>(mkf!($I, $O, <$I as fundsp::typenum::Unsigned>::USIZE, <$O as fundsp::typenum::Unsigned>::USIZE, c, n, $F))) as Un };
        (@f $m:ident $f:ident $N:ident, $I:ident, $O:ident, $F:ty, four) => { Box::new($m::$f::<$N, _, _, $F>(mkf!($I, $O, <$I as fundsp::typenum::Unsigned>::USIZE, <$O as fundsp::typenum::Unsigned>::USIZE, c, n, $F))) as Un };
    }
    macro_rules! byar {
        ($m:ident, $N:ident, $F:ty, $t:tt) => { match arity { 0 => env!($m, $N, U1, U1, $F, $t), 1 => env!($m, $N, U1, U2, $F, $t), 2 => env!($m, $N, U2, U1, $F, $t), _ => env!($m, $N, U2, U2, $F, $t) } };
    }
    macro_rules! byn {
        ($m:ident, $F:ty, $t:tt) => { match ni { 0 => byar!($m, U1, $F, $t), 1 => byar!($m, U2, $F, $t), 2 => byar!($m, U3, $F, $t), 3 => byar!($m, U5, $F, $t), 4 => byar!($m, U8, $F, $t), _ => byar!($m, U16, $F, $t) } };
    }
    let mut u = match env { 0 => byn!(h, f32, three), 1 => byn!(g, f32, three), _ => byn!(p, f64, four) };
    let names = ["busi", "busf", "stacki", "stackf", "branchi", "branchf", "sumi", "sumf", "pipei", "pipef"];
    let name = names[op as usize];
    let oo = if op >= 8 { ii } else { oo };
    let (wi, wo) = match op / 2 { 0 => (ii, oo), 1 => (ii * n, oo * n), 2 => (ii, oo * n), 3 => (ii * n, oo), _ => (ii, oo) };
    ctx.note(format!("{}::<U{}> of {}:{} probes mode {} env {}", name, n, ii, oo, c.mode, env));
    if n > 1 { ctx.nontrivial(); }
    ensure!(u.inputs() == wi && u.outputs() == wo, format!("{} arity", name), "{} arity {}:{} instead of {}:{}", name, u.inputs(), u.outputs(), wi, wo);
    let len = src.size(1, 100);
    let input = gen_input(src, &vec![kind::Kind::Audio; wi], len);
    let steps = gen_steps(src, len);
    // Reference.
    let mut m: Vec<ProbeModel> = (0..n).map(|i| pm(c.base, i as u64, ii, oo, c.mode)).collect();
    let mut want: Sig = vec![Vec::new(); wo];
    for k in 0..len {
        let x: Vec<f32> = input.iter().map(|v| v[k]).collect();
        let mut y = vec![0.0f32; wo];
        let mut chain = x.clone();
        for i in 0..n {
            let mut o = vec![0.0f32; oo];
            match op / 2 {
                0 | 2 => m[i].step(&x, &mut o),
                1 | 3 => m[i].step(&x[i * ii..(i + 1) * ii], &mut o),
                _ => { m[i].step(&chain, &mut o); chain = o.clone(); }
            }
            match op / 2 {
                0 | 3 => for j in 0..oo { y[j] += o[j]; },
                1 | 2 => for j in 0..oo { y[i * oo + j] = o[j]; },
                _ => y = o,
            }
        }
        for j in 0..wo { want[j].push(y[j]); }
    }
    let tol = 1.0e-5 * peak(&want).max(1.0);
    let mut v = u.clone();
    let got = render(&mut *u, &input, 0, &all_ticks(len));
    exact(name, &want, &got, tol, "ticks")?;
    let got = render(&mut *v, &input, 0, &steps);
    exact(name, &want, &got, tol, "blocks")
}

fn utils(src: &mut Src, ctx: &mut Ctx) -> Res {
    let op = src.below(19);
    let env = src.below(3);
    let ni = src.below(5);
    let n = [1usize, 2, 3, 5, 7][ni as usize];
    let k: Vec<f32> = (0..3).map(|_| src.below(65) as f32 / 16.0 - 2.0).collect();
    macro_rules! both { ($m:ident, $N:ident) => { match op {
        0 => Box::new($m::multipass::<$N>()) as Un,
        1 => Box::new($m::split::<$N>()),
        2 => Box::new($m::join::<$N>()),
        3 => Box::new($m::reverse::<$N>()),
        4 => Box::new($m::multisplit::<U2, $N>()),
        5 => Box::new($m::multijoin::<U2, $N>()),
        6 => Box::new($m::multisink::<$N>() | $m::pass()),
        7 => Box::new($m::multizero::<$N>()),
        8 => Box::new($m::multitick::<$N>()),
        9 => Box::new($m::monitor(&h::Shared::new(0.0), h::Meter::Sample) | $m::sink()),
        10 => Box::new($m::impulse::<$N>()),
        11 => Box::new($m::add((k[0], k[1]))),
        12 => Box::new($m::sub((k[0], k[1], k[2]))),
        13 => Box::new($m::mul((k[0], k[1]))),
        14 => Box::new($m::constant((k[0], k[1], k[2]))),
        15 => Box::new($m::thru($m::sink() | $m::mul(k[0]) | $m::sink())),
        16 => Box::new($m::map(|i: &Frame<f32, U3>| (i[2], i[0] * 2.0))),
        17 => Box::new($m::branch($m::mul(k[0]), $m::add(k[1])) >> $m::bus($m::join::<U2>(), $m::mul((k[2], 1.0)) >> $m::join::<U2>())),
        _ => Box::new($m::pipe($m::stack($m::mul(k[0]), $m::add(k[1])), $m::reverse::<U2>()) >> $m::sum($m::pass(), $m::pass()) >> ($m::product($m::mul(k[2]), $m::dc(0.5)))),
    } }; }
    macro_rules! byn { ($m:ident) => { match ni { 0 => both!($m, U1), 1 => both!($m, U2), 2 => both!($m, U3), 3 => both!($m, U5), _ => both!($m, U7) } } }
    let mut u = match env { 0 => byn!(h), 1 => byn!(g), _ => byn!(p) };
    let ins = u.inputs();
    let len = src.size(1, 100);
    let input = gen_input(src, &vec![kind::Kind::Audio; ins], len);
    let steps = gen_steps(src, len);
    let names = ["multipass", "split", "join", "reverse", "multisplit", "multijoin", "multisink", "multizero", "multitick", "monitor", "impulse", "add", "sub", "mul", "constant", "thru", "map", "fn-branch-bus", "fn-pipe-stack-sum-product"];
    let name = names[op as usize];
    ctx.note(format!("{} U{} k={:?} env {}", name, n, k, env));
    if len > 8 && n > 1 { ctx.nontrivial(); }
    let mut want: Sig = Vec::new();
    for t in 0..len {
        let x: Vec<f32> = input.iter().map(|v| v[t]).collect();
        let prev: Vec<f32> = input.iter().map(|v| if t > 0 { v[t - 1] } else { 0.0 }).collect();
        let y: Vec<f32> = match op {
            0 => x.clone(),
            1 => vec![x[0]; n],
            2 => vec![x.iter().map(|v| *v as f64).sum::<f64>() as f32 / n as f32],
            3 => x.iter().rev().copied().collect(),
            4 => (0..2 * n).map(|i| x[i % 2]).collect(),
            5 => (0..2).map(|j| ((0..n).map(|i| x[i * 2 + j] as f64).sum::<f64>() / n as f64) as f32).collect(),
            6 => vec![x[n]],
            7 => vec![0.0; n],
            8 => prev,
            9 => vec![x[0]],
            10 => vec![if t == 0 { 1.0 } else { 0.0 }; n],
            11 => vec![x[0] + k[0], x[1] + k[1]],
            12 => vec![x[0] - k[0], x[1] - k[1], x[2] - k[2]],
            13 => vec![x[0] * k[0], x[1] * k[1]],
            14 => k.clone(),
            15 => vec![x[1] * k[0], x[1], x[2]],
            16 => vec![x[2], x[0] * 2.0],
            17 => { let (a, b) = (x[0] * k[0], x[0] + k[1]); vec![(a + b) * 0.5 + (a * k[2] + b) * 0.5] }
            _ => vec![((x[0] * k[0]) + (x[1] + k[1])) * k[2] * 0.5],
        };
        if want.is_empty() { want = vec![Vec::new(); y.len()]; }
        for (a, b) in want.iter_mut().zip(y) { a.push(b); }
    }
    if op == 15 { ctx.label("thru"); }
    let mut v = u.clone();
    let got = render(&mut *u, &input, 0, &all_ticks(len));
    let tol = 2.0e-6 * peak(&want).max(1.0);
    exact(name, &want, &got, tol, "ticks")?;
    let got = render(&mut *v, &input, 0, &steps);
    exact(name, &want, &got, tol, "blocks")
}

/// Operator precedence and type-level channel counts as documented: the named sizes are what they say.
fn sizes(src: &mut Src, ctx: &mut Ctx) -> Res {
    macro_rules! sz { ($m:ident: $($t:ident $n:expr),*) => { vec![$( (stringify!($t), $n as usize, <$m::$t as fundsp::typenum::Unsigned>::USIZE) ),*] } }
    macro_rules! all { ($m:ident) => { sz!($m: U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U37 37, U38 38, U39 39, U40 40, U41 41, U42 42, U43 43, U44 44, U45 45, U46 46, U47 47, U48 48, U49 49, U50 50, U51 51, U52 52, U53 53, U54 54, U55 55, U56 56, U57 57, U58 58, U59 59, U60 60, U61 61, U62 62, U63 63, U64 64, U65 65, U66 66, U67 67, U68 68, U69 69, U70 70, U71 71, U72 72, U73 73, U74 74, U75 75, U76 76, U77 77, U78 78, U79 79, U80 80, U81 81, U82 82, U83 83, U84 84, U85 85, U86 86, U87 87, U88 88, U89 89, U90 90, U91 91, U92 92, U93 93, U94 94, U95 95, U96 96, U97 97, U98 98, U99 99, U100 100, U128 128) } }
    let v = match src.below(3) { 0 => all!(h), 1 => all!(g), _ => all!(p) };
    let (name, want, got) = *src.pick(&v);
    ctx.note(name);
    ensure!(want == got, format!("alias {}", name), "type alias {} means {} channels", name, got);
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C03",
        rule: "a case is an operator expression over stateful probes, an n-ary combinator over probes, or a channel utility, with an input and a partition; non-trivial when the expression has more than two nodes or the form combines several components",
        assumptions: &["reference sums are accumulated left to right; tolerance 1e-6 to 1e-5 of the peak covers other summation orders"],
        subs: vec![
            Sub { name: "expr", quick: 400000, thorough: 15000000, f: expr },
            Sub { name: "multi", quick: 200000, thorough: 8000000, f: multi },
            Sub { name: "utils", quick: 100000, thorough: 3000000, f: utils },
            Sub { name: "sizes", quick: 3000, thorough: 3000, f: sizes },
        ],
    })
}
#[allow(unused)]
type Unused = (U4, U7);
