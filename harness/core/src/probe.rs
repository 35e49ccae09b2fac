//! Deterministic test units written for the harness: a small linear state machine with
//! any number of inputs and outputs, so a reference model can mirror it exactly.
use fundsp::hacker::*;
use fundsp::signal::{Routing, SignalFrame};

/// Reference semantics of one probe; also the implementation of the unit.
#[derive(Clone, Debug)]
pub struct ProbeModel {
    pub ins: usize,
    pub outs: usize,
    pub id: u64,
    /// State per output.
    pub state: Vec<f32>,
    pub count: u32,
    pub rate: f64,
    /// 0: stateless mix, 1: leaky state, 2: one-sample delay, 3: sample counter source, 4: outputs its sample rate, 5: stateless mix plus its sample rate.
    pub mode: u8,
}

fn w(id: u64, a: usize, b: usize) -> f32 {
    // Multiples of 1/8 in -1...1; distinct per (id, a, b) in practice.
    let r = crate::mix(id.wrapping_mul(31).wrapping_add(a as u64 * 977).wrapping_add(b as u64 * 131071));
    (r % 17) as f32 / 8.0 - 1.0
}

impl ProbeModel {
    pub fn new(id: u64, ins: usize, outs: usize, mode: u8) -> Self {
        ProbeModel { ins, outs, id, state: vec![0.0; outs], count: 0, rate: DEFAULT_SR, mode }
    }
    pub fn reset(&mut self) {
        self.state.fill(0.0);
        self.count = 0;
    }
    pub fn step(&mut self, input: &[f32], output: &mut [f32]) {
        for o in 0..self.outs {
            let mut mix = 0.0f32;
            for i in 0..self.ins {
                mix += w(self.id, o, i) * 0.5 * input[i];
            }
            output[o] = match self.mode {
                0 => mix + w(self.id, o, 1000) * 0.25,
                1 => {
                    self.state[o] = self.state[o] * 0.5 + mix + w(self.id, o, 1000) * 0.125;
                    self.state[o]
                }
                2 => {
                    let y = self.state[o];
                    self.state[o] = mix;
                    y + w(self.id, o, 1000) * 0.25
                }
                4 => (self.rate / 1.0e6) as f32 + o as f32,
                5 => mix * 0.5 + (self.rate / 1.0e6) as f32 * (o + 1) as f32,
                _ => {
                    mix * 0.5 + ((self.count.wrapping_mul(7 + (self.id % 5) as u32) + o as u32) % 32) as f32 / 32.0
                }
            };
        }
        self.count = self.count.wrapping_add(1);
    }
}

/// The probe as an audio unit. `process` goes sample by sample over the block.
#[derive(Clone)]
pub struct Probe {
    pub m: ProbeModel,
}

impl Probe {
    pub fn boxed(m: ProbeModel) -> Box<dyn AudioUnit> {
        Box::new(Probe { m })
    }
}

impl AudioUnit for Probe {
    fn reset(&mut self) {
        self.m.reset();
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.m.rate = sample_rate;
    }
    fn tick(&mut self, input: &[f32], output: &mut [f32]) {
        self.m.step(input, output);
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        let (mut ia, mut oa) = ([0.0f32; 128], [0.0f32; 128]);
        let (mut iv, mut ov);
        let i: &mut [f32] = if self.m.ins <= 128 { &mut ia[..self.m.ins] } else { iv = vec![0.0; self.m.ins]; &mut iv };
        let o: &mut [f32] = if self.m.outs <= 128 { &mut oa[..self.m.outs] } else { ov = vec![0.0; self.m.outs]; &mut ov };
        for k in 0..size {
            for c in 0..self.m.ins { i[c] = input.at_f32(c, k); }
            self.m.step(i, o);
            for c in 0..self.m.outs { output.set_f32(c, k, o[c]); }
        }
    }
    fn inputs(&self) -> usize { self.m.ins }
    fn outputs(&self) -> usize { self.m.outs }
    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
        Routing::Arbitrary(0.0).route(input, self.m.outs)
    }
    fn get_id(&self) -> u64 { 9000 }
    fn footprint(&self) -> usize { std::mem::size_of::<Self>() }
    /// Settings: `Value(v)` replaces the identity of the probe (its weights).
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.m.id = *v as u64;
        }
    }
}

/// How graphs obtain catalogue leaves (keeps the catalogue and graph crates independent).
#[derive(Clone, Copy)]
pub struct Provider {
    pub gen: fn(&mut crate::Src, &str) -> crate::kind::LeafSpec,
    pub build: fn(&crate::kind::LeafSpec) -> (Vec<crate::kind::Kind>, Box<dyn AudioUnit>),
}
static PROVIDER: std::sync::OnceLock<Provider> = std::sync::OnceLock::new();
pub fn set_provider(p: Provider) {
    let _ = PROVIDER.set(p);
}
pub fn provider() -> Provider {
    *PROVIDER.get().expect("provider not set")
}
