//! What an input port expects; used to generate sensible control signals.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// Any audio signal in about -1...1.
    Audio,
    /// Control in lo...hi that may vary per sample.
    Range(f32, f32),
    /// Control in lo...hi (log scale) that may vary per sample.
    Log(f32, f32),
    /// As `Log` but held constant over the run (documented to be sampled sparsely).
    Const(f32, f32),
}

/// A catalogue entry chosen by index with six parameters in 0...1.
#[derive(Clone, Debug)]
pub struct LeafSpec {
    pub kind: usize,
    pub p: Vec<f64>,
    pub name: &'static str,
    pub ins: usize,
    pub outs: usize,
}
impl LeafSpec {
    pub fn describe(&self) -> String {
        format!("{}({})", self.name, self.p.iter().map(|x| format!("{:.4}", x)).collect::<Vec<_>>().join(","))
    }
}
