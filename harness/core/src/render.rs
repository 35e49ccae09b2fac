//! Rendering helpers: partitions, inputs, buffers.
use crate::kind::Kind;
use crate::Src;
use fundsp::hacker::{AudioUnit, BufferVec, MAX_BUFFER_SIZE};

/// channels[c][i]
pub type Sig = Vec<Vec<f32>>;

pub fn rnd11(seed: u64, i: u64) -> f32 {
    let r = crate::mix(seed ^ i.wrapping_mul(0xd1342543de82ef95));
    ((r >> 40) as f32 / (1u64 << 23) as f32) - 1.0
}

/// How one input channel behaves; generated, then expanded to samples.
pub fn gen_channel(src: &mut Src, kind: Kind, n: usize) -> Vec<f32> {
    let shape = src.below(7);
    let seed = src.seed();
    let a = src.below(1001) as f64 / 1000.0;
    let mut v: Vec<f64> = Vec::with_capacity(n); // in -1...1
    for i in 0..n {
        let x = match shape {
            0 => 0.0,
            1 => if i == 0 { 1.0 } else { 0.0 },
            2 => a * 2.0 - 1.0,
            3 => rnd11(seed, i as u64) as f64,
            4 => (i as f64 * (0.001 + a * a) + 1.0).sin(),
            5 => rnd11(seed, (i / (1 + (a * 50.0) as usize)) as u64) as f64,
            _ => if rnd11(seed, i as u64) > 0.9 { rnd11(seed ^ 1, i as u64) as f64 } else { 0.0 },
        };
        v.push(x);
    }
    match kind {
        Kind::Audio => v.iter().map(|x| *x as f32).collect(),
        Kind::Range(lo, hi) => v.iter().map(|x| (lo as f64 + (hi as f64 - lo as f64) * (x * 0.5 + 0.5)) as f32).map(|x| x.clamp(lo, hi)).collect(),
        Kind::Log(lo, hi) => v.iter().map(|x| ((lo as f64).ln() + ((hi as f64).ln() - (lo as f64).ln()) * (x * 0.5 + 0.5)).exp() as f32).map(|x| x.clamp(lo, hi)).collect(),
        Kind::Const(lo, hi) => {
            let x = ((lo as f64).ln() + ((hi as f64).ln() - (lo as f64).ln()) * a).exp() as f32;
            vec![x.clamp(lo, hi); n]
        }
    }
}

pub fn gen_input(src: &mut Src, kinds: &[Kind], n: usize) -> Sig {
    kinds.iter().map(|k| gen_channel(src, *k, n)).collect()
}

/// One rendering step.
#[derive(Clone, Copy, Debug)]
pub enum Step {
    Tick(usize),
    Block(usize),
}
impl Step {
    pub fn len(&self) -> usize {
        match self { Step::Tick(n) | Step::Block(n) => *n }
    }
}

/// A random partition of n samples.
pub fn gen_steps(src: &mut Src, n: usize) -> Vec<Step> {
    let mut v = Vec::new();
    let mut left = n;
    let style = src.below(4);
    while left > 0 {
        let s = match style {
            0 => 64,
            1 => src.size(1, 64),
            2 => *src.pick(&[64usize, 1, 7, 8, 9, 63, 16, 15, 17, 33, 2, 3]),
            _ => src.size(1, 64),
        }.min(left);
        let tick = style == 3 && src.below(3) == 0 || style == 2 && src.below(6) == 0;
        v.push(if tick { Step::Tick(s) } else { Step::Block(s) });
        left -= s;
    }
    v
}

pub fn all_ticks(n: usize) -> Vec<Step> {
    vec![Step::Tick(n)]
}
pub fn all_blocks(n: usize) -> Vec<Step> {
    let mut v = vec![Step::Block(MAX_BUFFER_SIZE); n / MAX_BUFFER_SIZE];
    if n % MAX_BUFFER_SIZE > 0 { v.push(Step::Block(n % MAX_BUFFER_SIZE)); }
    v
}

pub fn describe_steps(v: &[Step]) -> String {
    let s: Vec<String> = v.iter().take(40).map(|s| match s { Step::Tick(n) => format!("t{}", n), Step::Block(n) => format!("b{}", n) }).collect();
    s.join(" ")
}

/// Renders `unit` over `steps`. Output buffers hold garbage before every block and
/// input buffers hold garbage beyond the block size.
pub fn render(unit: &mut dyn AudioUnit, input: &Sig, from: usize, steps: &[Step]) -> Sig {
    let ins = unit.inputs();
    let outs = unit.outputs();
    assert_eq!(ins, input.len());
    let mut out: Sig = vec![Vec::new(); outs];
    let mut pos = from;
    let mut ib = BufferVec::new(ins);
    let mut ob = BufferVec::new(outs);
    let mut ti = vec![0.0f32; ins];
    let mut to = vec![0.0f32; outs];
    for s in steps {
        match s {
            Step::Tick(n) => {
                for _ in 0..*n {
                    for c in 0..ins { ti[c] = input[c][pos]; }
                    to.fill(777.0);
                    unit.tick(&ti, &mut to);
                    for c in 0..outs { out[c].push(to[c]); }
                    pos += 1;
                }
            }
            Step::Block(n) => {
                for c in 0..ins {
                    let b = ib.channel_f32_mut(c);
                    for i in 0..MAX_BUFFER_SIZE { b[i] = if i < *n { input[c][pos + i] } else { 0.123 + i as f32 * 0.01 }; }
                }
                for c in 0..outs { ob.channel_f32_mut(c).fill(555.0); }
                unit.process(*n, &ib.buffer_ref(), &mut ob.buffer_mut());
                for c in 0..outs {
                    for i in 0..*n { out[c].push(ob.at_f32(c, i)); }
                }
                pos += *n;
            }
        }
    }
    out
}

pub fn peak(s: &Sig) -> f64 {
    s.iter().flatten().filter(|x| x.is_finite()).fold(0.0f64, |a, x| a.max(x.abs() as f64))
}

/// First difference beyond tolerance: (channel, sample, a, b).
pub fn diff(a: &Sig, b: &Sig, tol: f64) -> Option<(usize, usize, f32, f32)> {
    for c in 0..a.len().max(b.len()) {
        if c >= a.len() || c >= b.len() { return Some((c, 0, f32::NAN, f32::NAN)); }
        for i in 0..a[c].len().max(b[c].len()) {
            if i >= a[c].len() || i >= b[c].len() { return Some((c, i, f32::NAN, f32::NAN)); }
            let (x, y) = (a[c][i], b[c][i]);
            if !crate::close(x as f64, y as f64, tol, 0.0) { return Some((c, i, x, y)); }
        }
    }
    None
}

pub fn worst(a: &Sig, b: &Sig) -> f64 {
    let mut w = 0.0f64;
    for c in 0..a.len() { for i in 0..a[c].len() { let d = (a[c][i] as f64 - b[c][i] as f64).abs(); if d.is_nan() { if a[c][i].is_nan() != b[c][i].is_nan() { return f64::INFINITY } } else { w = w.max(d); } } }
    w
}
