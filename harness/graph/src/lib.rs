//! Random inline (statically typed) graph expressions, built at run time by wrapping
//! components as fixed-arity units, plus a reference evaluator over probes.
use vfcore::kind::{Kind, LeafSpec};
use vfcore::probe::{provider, ProbeModel};
use vfcore::Src;
use fundsp::hacker as h;
use fundsp::hacker::{AudioUnit, Frame, U0, U1, U2, U3};
use fundsp::prelude::unit;

pub const MAXC: usize = 3;

#[derive(Clone, Debug)]
pub enum G {
    Probe { id: u64, ins: usize, outs: usize, mode: u8 },
    Leaf(LeafSpec),
    Pipe(Box<G>, Box<G>),
    Stack(Box<G>, Box<G>),
    Branch(Box<G>, Box<G>),
    Bus(Box<G>, Box<G>),
    Sum(Box<G>, Box<G>),
    Sub(Box<G>, Box<G>),
    Mul(Box<G>, Box<G>),
    Thru(Box<G>),
    Neg(Box<G>),
    AddC(Box<G>, f32),
    CAdd(f32, Box<G>),
    SubC(Box<G>, f32),
    CSub(f32, Box<G>),
    MulC(Box<G>, f32),
    CMul(f32, Box<G>),
}
use G::*;

impl G {
    pub fn ins(&self) -> usize {
        match self {
            Probe { ins, .. } => *ins,
            Leaf(l) => l.ins,
            Pipe(a, _) | Branch(a, _) | Bus(a, _) => a.ins(),
            Stack(a, b) | Sum(a, b) | Sub(a, b) | Mul(a, b) => a.ins() + b.ins(),
            Thru(a) | Neg(a) | AddC(a, _) | CAdd(_, a) | SubC(a, _) | CSub(_, a) | MulC(a, _) | CMul(_, a) => a.ins(),
        }
    }
    pub fn outs(&self) -> usize {
        match self {
            Probe { outs, .. } => *outs,
            Leaf(l) => l.outs,
            Pipe(_, b) => b.outs(),
            Branch(a, b) | Stack(a, b) => a.outs() + b.outs(),
            Bus(a, _) | Sum(a, _) | Sub(a, _) | Mul(a, _) => a.outs(),
            Thru(a) => a.ins(),
            Neg(a) | AddC(a, _) | CAdd(_, a) | SubC(a, _) | CSub(_, a) | MulC(a, _) | CMul(_, a) => a.outs(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Probe { .. } | Leaf(_) => 1,
            Pipe(a, b) | Stack(a, b) | Branch(a, b) | Bus(a, b) | Sum(a, b) | Sub(a, b) | Mul(a, b) => 1 + a.size() + b.size(),
            Thru(a) | Neg(a) | AddC(a, _) | CAdd(_, a) | SubC(a, _) | CSub(_, a) | MulC(a, _) | CMul(_, a) => 1 + a.size(),
        }
    }
    /// Paths of left and right turns to the leaves; unary operations take no turn.
    /// Makes every probe report its sample rate.
    pub fn report_rates(&mut self) {
        match self {
            Probe { mode, .. } => *mode = 5,
            Leaf(_) => (),
            Pipe(a, b) | Stack(a, b) | Branch(a, b) | Bus(a, b) | Sum(a, b) | Sub(a, b) | Mul(a, b) => { a.report_rates(); b.report_rates(); }
            Thru(a) | Neg(a) | AddC(a, _) | CAdd(_, a) | SubC(a, _) | CSub(_, a) | MulC(a, _) | CMul(_, a) => a.report_rates(),
        }
    }
    pub fn leaf_paths(&self) -> Vec<Vec<bool>> {
        match self {
            Probe { .. } | Leaf(_) => vec![vec![]],
            Pipe(a, b) | Stack(a, b) | Branch(a, b) | Bus(a, b) | Sum(a, b) | Sub(a, b) | Mul(a, b) => {
                let mut v = vec![];
                for (side, x) in [(false, a), (true, b)] { for p in x.leaf_paths() { let mut q = vec![side]; q.extend(p); v.push(q); } }
                v
            }
            Thru(a) | Neg(a) | AddC(a, _) | CAdd(_, a) | SubC(a, _) | CSub(_, a) | MulC(a, _) | CMul(_, a) => a.leaf_paths(),
        }
    }
    pub fn describe(&self) -> String {
        let d = |a: &G| a.describe();
        match self {
            Probe { id, ins, outs, mode } => format!("P{}m{}[{}:{}]", id, mode, ins, outs),
            Leaf(l) => l.describe(),
            Pipe(a, b) => format!("({} >> {})", d(a), d(b)),
            Stack(a, b) => format!("({} | {})", d(a), d(b)),
            Branch(a, b) => format!("({} ^ {})", d(a), d(b)),
            Bus(a, b) => format!("({} & {})", d(a), d(b)),
            Sum(a, b) => format!("({} + {})", d(a), d(b)),
            Sub(a, b) => format!("({} - {})", d(a), d(b)),
            Mul(a, b) => format!("({} * {})", d(a), d(b)),
            Thru(a) => format!("!{}", d(a)),
            Neg(a) => format!("-{}", d(a)),
            AddC(a, c) => format!("({} + {:?})", d(a), c),
            CAdd(c, a) => format!("({:?} + {})", c, d(a)),
            SubC(a, c) => format!("({} - {:?})", d(a), c),
            CSub(c, a) => format!("({:?} - {})", c, d(a)),
            MulC(a, c) => format!("({} * {:?})", d(a), c),
            CMul(c, a) => format!("({:?} * {})", c, d(a)),
        }
    }
}

/// Generation policy for leaves.
#[derive(Clone, Copy, PartialEq)]
pub enum Leaves { Probes, Catalogue }

/// Catalogue entries that are continuous functions of their inputs and cheap enough to nest.
pub const SMOOTH: &[&str] = &[
    "pass", "constant", "zero", "multipass", "sink", "reverse", "add", "sub", "mul", "mul2", "split", "join", "tick", "multitick", "rotate", "impulse",
    "map", "monitor", "sine64_hz", "noise", "pink", "brown", "mls", "pinkpass", "butterpass_hz", "lowpole", "lowpole_hz", "allpole_delay", "highpole_hz", "dcblock",
    "resonator_hz", "biquad", "fir", "fir3", "moog_hz", "svf", "svf_hz", "svf_q", "rez_hz", "delay", "tap", "tap_linear", "allnest_c", "feedback", "fdn2", "declick",
    "follow", "limiter", "limiter_stereo", "clip", "panner", "pan", "busi", "stacki", "branchi", "sumi", "pipei", "thru", "wavech", "wavech_at", "timer", "var", "envelope", "lfo",
    "resample_noise", "oversample_filter", "busi_noise", "snoop", "slot", "feedback_unit",
];

pub fn gen_leaf(src: &mut Src, ins: usize, outs: usize, pol: Leaves, next: &mut u64) -> G {
    if pol == Leaves::Catalogue && src.below(5) > 0 {
        // A few attempts to find a catalogue entry of the right arity.
        for _ in 0..6 {
            let name = *src.pick(SMOOTH);
            let spec = (provider().gen)(src, name);
            if spec.ins == ins && spec.outs == outs {
                return Leaf(spec);
            }
        }
    }
    *next += 1;
    let mode = src.below(4) as u8;
    Probe { id: *next, ins, outs, mode }
}

/// Generates an expression with the given arity.
pub fn gen(src: &mut Src, ins: usize, outs: usize, depth: usize, pol: Leaves, next: &mut u64) -> G {
    if depth == 0 {
        return gen_leaf(src, ins, outs, pol, next);
    }
    let d = depth - 1;
    let op = src.below(18);
    macro_rules! go { ($i:expr, $o:expr) => { Box::new(gen(src, $i, $o, d, pol, next)) } }
    match op {
        0 | 1 => gen_leaf(src, ins, outs, pol, next),
        2..=4 => {
            let k = src.size(0, MAXC);
            let a = go!(ins, k);
            let b = go!(k, outs);
            Pipe(a, b)
        }
        5 | 6 => {
            let i = src.size(0, ins);
            let o = src.size(0, outs);
            let a = go!(i, o);
            let b = go!(ins - i, outs - o);
            Stack(a, b)
        }
        7 | 8 => {
            let o = src.size(0, outs);
            let a = go!(ins, o);
            let b = go!(ins, outs - o);
            Branch(a, b)
        }
        9 | 10 => { let a = go!(ins, outs); let b = go!(ins, outs); Bus(a, b) }
        11 | 12 | 13 if outs > 0 => {
            let i = src.size(0, ins);
            let a = go!(i, outs);
            let b = go!(ins - i, outs);
            match op { 11 => Sum(a, b), 12 => Sub(a, b), _ => Mul(a, b) }
        }
        14 if ins == outs => {
            let o = src.size(0, MAXC);
            Thru(go!(ins, o))
        }
        15 if outs > 0 => Neg(go!(ins, outs)),
        16 | 17 if outs > 0 => {
            let c = (src.below(17) as f32 - 8.0) / 8.0;
            let kind = src.below(6);
            let a = go!(ins, outs);
            match kind { 0 => AddC(a, c), 1 => CAdd(c, a), 2 => SubC(a, c), 3 => CSub(c, a), 4 => MulC(a, c), _ => CMul(c, a) }
        }
        _ => gen_leaf(src, ins, outs, pol, next),
    }
}

macro_rules! by_n {
    ($n:expr, $T:ident => $body:expr) => { match $n { 0 => { type $T = U0; $body } 1 => { type $T = U1; $body } 2 => { type $T = U2; $body } 3 => { type $T = U3; $body } _ => panic!("arity") } };
}
/// Pairs with sum at most MAXC.
macro_rules! by_pair {
    ($a:expr, $b:expr, $T:ident, $V:ident => $body:expr) => { match ($a, $b) {
        (0, 0) => { type $T = U0; type $V = U0; $body } (0, 1) => { type $T = U0; type $V = U1; $body } (0, 2) => { type $T = U0; type $V = U2; $body } (0, 3) => { type $T = U0; type $V = U3; $body }
        (1, 0) => { type $T = U1; type $V = U0; $body } (1, 1) => { type $T = U1; type $V = U1; $body } (1, 2) => { type $T = U1; type $V = U2; $body }
        (2, 0) => { type $T = U2; type $V = U0; $body } (2, 1) => { type $T = U2; type $V = U1; $body }
        (3, 0) => { type $T = U3; type $V = U0; $body }
        _ => panic!("arity pair") } };
}

type Un = Box<dyn AudioUnit>;

/// Maps audio-range inputs to the ranges a leaf expects.
fn adapt(kinds: &[Kind], u: Un) -> Un {
    if kinds.iter().all(|k| *k == Kind::Audio) { return u; }
    let kinds: Vec<Kind> = kinds.to_vec();
    fn conv(k: Kind, x: f32) -> f32 {
        let t = x.clamp(-1.0, 1.0) as f64 * 0.5 + 0.5;
        match k {
            Kind::Audio => x,
            Kind::Range(lo, hi) => ((lo as f64 + (hi as f64 - lo as f64) * t) as f32).clamp(lo, hi),
            Kind::Log(lo, hi) => (((lo as f64).ln() + ((hi as f64).ln() - (lo as f64).ln()) * t).exp() as f32).clamp(lo, hi),
            Kind::Const(lo, hi) => ((lo as f64 * hi as f64).sqrt()) as f32,
        }
    }
    match kinds.len() {
        1 => by_n!(u.outputs(), O => Box::new(h::map(move |i: &Frame<f32, U1>| conv(kinds[0], i[0])) >> unit::<U1, O>(u))),
        2 => by_n!(u.outputs(), O => Box::new(h::map(move |i: &Frame<f32, U2>| (conv(kinds[0], i[0]), conv(kinds[1], i[1]))) >> unit::<U2, O>(u))),
        3 => by_n!(u.outputs(), O => Box::new(h::map(move |i: &Frame<f32, U3>| (conv(kinds[0], i[0]), conv(kinds[1], i[1]), conv(kinds[2], i[2]))) >> unit::<U3, O>(u))),
        _ => panic!("arity"),
    }
}

pub fn leaf_unit(g: &G) -> Un {
    match g {
        Probe { id, ins, outs, mode } => vfcore::probe::Probe::boxed(ProbeModel::new(*id, *ins, *outs, *mode)),
        Leaf(l) => { let (k, u) = (provider().build)(l); adapt(&k, u) }
        _ => panic!("not a leaf"),
    }
}

/// Builds the inline graph with the real operators.
pub fn build(g: &G) -> Un {
    match g {
        Probe { .. } | Leaf(_) => leaf_unit(g),
        Pipe(a, b) => {
            let (x, y) = (build(a), build(b));
            by_n!(x.inputs(), I => by_n!(x.outputs(), K => by_n!(y.outputs(), O => Box::new(unit::<I, K>(x) >> unit::<K, O>(y)) as Un)))
        }
        Stack(a, b) => {
            let (x, y) = (build(a), build(b));
            by_pair!(x.inputs(), y.inputs(), I, J => by_pair!(x.outputs(), y.outputs(), O, R => Box::new(unit::<I, O>(x) | unit::<J, R>(y)) as Un))
        }
        Branch(a, b) => {
            let (x, y) = (build(a), build(b));
            by_n!(x.inputs(), I => by_pair!(x.outputs(), y.outputs(), O, R => Box::new(unit::<I, O>(x) ^ unit::<I, R>(y)) as Un))
        }
        Bus(a, b) => {
            let (x, y) = (build(a), build(b));
            by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) & unit::<I, O>(y)) as Un))
        }
        Sum(a, b) => {
            let (x, y) = (build(a), build(b));
            by_pair!(x.inputs(), y.inputs(), I, J => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) + unit::<J, O>(y)) as Un))
        }
        Sub(a, b) => {
            let (x, y) = (build(a), build(b));
            by_pair!(x.inputs(), y.inputs(), I, J => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) - unit::<J, O>(y)) as Un))
        }
        Mul(a, b) => {
            let (x, y) = (build(a), build(b));
            by_pair!(x.inputs(), y.inputs(), I, J => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) * unit::<J, O>(y)) as Un))
        }
        Thru(a) => {
            let x = build(a);
            by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(!unit::<I, O>(x)) as Un))
        }
        Neg(a) => {
            let x = build(a);
            by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(-unit::<I, O>(x)) as Un))
        }
        AddC(a, c) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) + *c) as Un)) }
        CAdd(c, a) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(*c + unit::<I, O>(x)) as Un)) }
        SubC(a, c) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) - *c) as Un)) }
        CSub(c, a) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(*c - unit::<I, O>(x)) as Un)) }
        MulC(a, c) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(unit::<I, O>(x) * *c) as Un)) }
        CMul(c, a) => { let x = build(a); by_n!(x.inputs(), I => by_n!(x.outputs(), O => Box::new(*c * unit::<I, O>(x)) as Un)) }
    }
}

/// Reference evaluator: documented operator semantics, one sample at a time.
pub struct Eval {
    node: E,
}
enum E {
    P(ProbeModel),
    U(Un),
    Bin(u8, Box<E>, Box<E>, [usize; 4]),
    Un(u8, Box<E>, f32, [usize; 2]),
}

fn ev(g: &G) -> E {
    let bin = |k: u8, a: &G, b: &G| E::Bin(k, Box::new(ev(a)), Box::new(ev(b)), [a.ins(), a.outs(), b.ins(), b.outs()]);
    let un = |k: u8, a: &G, c: f32| E::Un(k, Box::new(ev(a)), c, [a.ins(), a.outs()]);
    match g {
        Probe { id, ins, outs, mode } => E::P(ProbeModel::new(*id, *ins, *outs, *mode)),
        Leaf(_) => E::U(leaf_unit(g)),
        Pipe(a, b) => bin(0, a, b),
        Stack(a, b) => bin(1, a, b),
        Branch(a, b) => bin(2, a, b),
        Bus(a, b) => bin(3, a, b),
        Sum(a, b) => bin(4, a, b),
        Sub(a, b) => bin(5, a, b),
        Mul(a, b) => bin(6, a, b),
        Thru(a) => un(0, a, 0.0),
        Neg(a) => un(1, a, 0.0),
        AddC(a, c) | CAdd(c, a) => un(2, a, *c),
        SubC(a, c) => un(3, a, *c),
        CSub(c, a) => un(4, a, *c),
        MulC(a, c) | CMul(c, a) => un(5, a, *c),
    }
}

fn estep(e: &mut E, x: &[f32]) -> Vec<f32> {
    match e {
        E::P(m) => { let mut o = vec![0.0; m.outs]; m.step(x, &mut o); o }
        E::U(u) => { let mut o = vec![0.0; u.outputs()]; u.tick(x, &mut o); o }
        E::Bin(k, a, b, n) => match k {
            0 => { let m = estep(a, x); estep(b, &m) }
            1 => { let mut o = estep(a, &x[..n[0]]); o.extend(estep(b, &x[n[0]..])); o }
            2 => { let mut o = estep(a, x); o.extend(estep(b, x)); o }
            3 => { let o = estep(a, x); let r = estep(b, x); o.iter().zip(&r).map(|(p, q)| p + q).collect() }
            _ => {
                let o = estep(a, &x[..n[0]]);
                let r = estep(b, &x[n[0]..]);
                o.iter().zip(&r).map(|(p, q)| match k { 4 => p + q, 5 => p - q, _ => p * q }).collect()
            }
        },
        E::Un(k, a, c, n) => {
            let o = estep(a, x);
            match k {
                // Pass-through: missing outputs come from the inputs, extra outputs are cut.
                0 => (0..n[0]).map(|i| if i < n[1] { o[i] } else { x[i] }).collect(),
                1 => o.iter().map(|v| -v).collect(),
                2 => o.iter().map(|v| v + *c).collect(),
                3 => o.iter().map(|v| v - *c).collect(),
                4 => o.iter().map(|v| *c - v).collect(),
                _ => o.iter().map(|v| v * *c).collect(),
            }
        }
    }
}

impl Eval {
    /// Applies `f` to the probe at the given path of left (false) and right (true) turns.
    pub fn with_probe(&mut self, path: &[bool], f: impl FnOnce(&mut ProbeModel)) {
        let mut e = &mut self.node;
        let mut k = 0;
        loop {
            match e {
                E::P(m) => { f(m); return; }
                E::U(_) => panic!("not a probe"),
                E::Bin(_, a, b, _) => { e = if path[k] { b } else { a }; k += 1; }
                E::Un(_, a, _, _) => e = a,
            }
        }
    }
    pub fn new(g: &G) -> Eval { Eval { node: ev(g) } }
    pub fn reset(&mut self) {
        fn go(e: &mut E) {
            match e { E::P(m) => m.reset(), E::U(u) => u.reset(), E::Bin(_, a, b, _) => { go(a); go(b) } E::Un(_, a, _, _) => go(a) }
        }
        go(&mut self.node);
    }
    pub fn set_rate(&mut self, rate: f64) {
        fn go(e: &mut E, r: f64) {
            match e { E::P(m) => m.rate = r, E::U(u) => u.set_sample_rate(r), E::Bin(_, a, b, _) => { go(a, r); go(b, r) } E::Un(_, a, _, _) => go(a, r) }
        }
        go(&mut self.node, rate);
    }
    pub fn step(&mut self, x: &[f32]) -> Vec<f32> { estep(&mut self.node, x) }
    pub fn run(&mut self, input: &vfcore::render::Sig, from: usize, n: usize, outs: usize) -> vfcore::render::Sig {
        let mut o = vec![Vec::with_capacity(n); outs];
        for i in from..from + n {
            let x: Vec<f32> = input.iter().map(|c| c[i]).collect();
            let y = self.step(&x);
            for c in 0..outs { o[c].push(y[c]); }
        }
        o
    }
}

/// Builds the same expression from networks. `mix` decides where operands stay inline.
pub fn build_net(g: &G, src: &mut Src) -> h::Net {
    use h::Net;
    macro_rules! bin { ($a:expr, $b:expr, $op:tt) => {{
        let (ga, gb) = ($a, $b);
        // Leaves may stay inline on one side of the operator.
        let la = matches!(**ga, Probe { .. } | Leaf(_)) && ga.ins() <= MAXC && ga.outs() <= MAXC;
        let lb = matches!(**gb, Probe { .. } | Leaf(_)) && gb.ins() <= MAXC && gb.outs() <= MAXC;
        let how = src.below(4);
        if how == 1 && la {
            let b = build_net(gb, src);
            let x = leaf_unit(ga);
            by_n!(x.inputs(), I => by_n!(x.outputs(), O => unit::<I, O>(x) $op b))
        } else if how == 2 && lb {
            let a = build_net(ga, src);
            let y = leaf_unit(gb);
            by_n!(y.inputs(), I => by_n!(y.outputs(), O => a $op unit::<I, O>(y)))
        } else {
            let a = build_net(ga, src);
            let b = build_net(gb, src);
            a $op b
        }
    }} }
    match g {
        Probe { .. } | Leaf(_) => Net::wrap(leaf_unit(g)),
        Pipe(a, b) => bin!(a, b, >>),
        Stack(a, b) => bin!(a, b, |),
        Branch(a, b) => bin!(a, b, ^),
        Bus(a, b) => bin!(a, b, &),
        Sum(a, b) => bin!(a, b, +),
        Sub(a, b) => bin!(a, b, -),
        Mul(a, b) => bin!(a, b, *),
        Thru(a) => !build_net(a, src),
        Neg(a) => -build_net(a, src),
        AddC(a, c) => build_net(a, src) + *c,
        CAdd(c, a) => *c + build_net(a, src),
        SubC(a, c) => build_net(a, src) - *c,
        CSub(c, a) => *c - build_net(a, src),
        MulC(a, c) => build_net(a, src) * *c,
        CMul(c, a) => *c * build_net(a, src),
    }
}
