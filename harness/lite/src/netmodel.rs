//! Plain model of a network: nodes with sources per input, evaluated in dependency order.
use std::collections::BTreeMap;
use vfcore::probe::ProbeModel;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MSrc { Zero, In(usize), Node(u64, usize) }

#[derive(Clone, Debug)]
pub struct MNode {
    pub unit: ProbeModel,
    pub src: Vec<MSrc>,
    /// Which unit this is; changes on replacement.
    pub gen: u64,
}

#[derive(Clone, Debug)]
pub struct NetModel {
    pub ins: usize,
    pub outs: usize,
    pub nodes: BTreeMap<u64, MNode>,
    pub out: Vec<MSrc>,
}

impl NetModel {
    pub fn new(ins: usize, outs: usize) -> NetModel {
        NetModel { ins, outs, nodes: BTreeMap::new(), out: vec![MSrc::Zero; outs] }
    }
    pub fn push(&mut self, key: u64, unit: ProbeModel) {
        let n = unit.ins;
        self.nodes.insert(key, MNode { unit, src: vec![MSrc::Zero; n], gen: 0 });
    }
    fn rewrite(&mut self, f: &dyn Fn(MSrc) -> MSrc) {
        for s in self.out.iter_mut() { *s = f(*s); }
        for (k, n) in self.nodes.iter_mut() {
            for s in n.src.iter_mut() {
                let t = f(*s);
                // Self connections are prohibited.
                *s = match t { MSrc::Node(j, _) if j == *k => MSrc::Zero, t => t };
            }
        }
    }
    pub fn remove(&mut self, key: u64) {
        self.nodes.remove(&key);
        self.rewrite(&|s| match s { MSrc::Node(k, _) if k == key => MSrc::Zero, s => s });
    }
    pub fn remove_link(&mut self, key: u64) {
        let n = self.nodes.remove(&key).unwrap();
        self.rewrite(&|s| match s { MSrc::Node(k, p) if k == key => n.src[p], s => s });
    }
    /// Evaluation order, or nothing when the connections form a cycle.
    pub fn order(&self) -> Option<Vec<u64>> {
        fn visit(m: &NetModel, k: u64, mark: &mut BTreeMap<u64, u8>, o: &mut Vec<u64>) -> bool {
            match mark.get(&k) { Some(1) => return false, Some(2) => return true, _ => () }
            mark.insert(k, 1);
            for s in &m.nodes[&k].src {
                if let MSrc::Node(j, _) = s { if !visit(m, *j, mark, o) { return false; } }
            }
            mark.insert(k, 2);
            o.push(k);
            true
        }
        let mut mark = BTreeMap::new();
        let mut o = Vec::new();
        for k in self.nodes.keys() { if !visit(self, *k, &mut mark, &mut o) { return None; } }
        Some(o)
    }
    pub fn acyclic(&self) -> bool { self.order().is_some() }
    pub fn reset(&mut self) { for n in self.nodes.values_mut() { n.unit.reset(); } }
    /// One sample through the network.
    pub fn step(&mut self, order: &[u64], input: &[f32], output: &mut [f32]) {
        let mut values: BTreeMap<u64, Vec<f32>> = BTreeMap::new();
        for k in order {
            let n = self.nodes.get_mut(k).unwrap();
            let x: Vec<f32> = n.src.iter().map(|s| match s { MSrc::Zero => 0.0, MSrc::In(i) => input[*i], MSrc::Node(j, p) => values[j][*p] }).collect();
            let mut y = vec![0.0; n.unit.outs];
            n.unit.step(&x, &mut y);
            values.insert(*k, y);
        }
        for (o, s) in output.iter_mut().zip(&self.out) {
            *o = match s { MSrc::Zero => 0.0, MSrc::In(i) => input[*i], MSrc::Node(j, p) => values[j][*p] };
        }
    }
    pub fn run(&mut self, input: &vfcore::render::Sig, n: usize) -> vfcore::render::Sig {
        let order = self.order().expect("cyclic model");
        let mut o = vec![Vec::with_capacity(n); self.outs];
        let mut y = vec![0.0; self.outs];
        for i in 0..n {
            let x: Vec<f32> = input.iter().map(|c| c[i]).collect();
            self.step(&order, &x, &mut y);
            for c in 0..self.outs { o[c].push(y[c]); }
        }
        o
    }
}

/// A network together with its model and the mapping between node names.
use fundsp::hacker::*;
use vfcore::probe::Probe;
use vfcore::{ensure, Res, Src};

#[derive(Clone)]
pub struct Pair {
    pub net: Net,
    pub m: NetModel,
    pub ids: BTreeMap<u64, NodeId>,
    pub gone: Vec<NodeId>,
    pub next: u64,
    pub gens: u64,
    pub log: String,
    /// Only probes with one input and one output per channel etc. may be limited by the caller.
    pub maxc: usize,
    /// Sample rate of the network.
    pub rate: f64,
}

/// Operation kinds, with weights given by the caller.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Push, Chain, Remove, RemoveLink, Replace, Connect, Disconnect, ConnectInput, PipeInput, ConnectOutput, DisconnectOutput, PassThrough, PipeOutput, PipeAll, SetSource, SetOutputSource, Reset, Compose }
pub const OPS: &[Op] = &[Op::Push, Op::Push, Op::Push, Op::Chain, Op::Chain, Op::Remove, Op::RemoveLink, Op::Replace, Op::Connect, Op::Connect, Op::Connect, Op::Connect, Op::Disconnect, Op::ConnectInput,
    Op::PipeInput, Op::ConnectOutput, Op::ConnectOutput, Op::DisconnectOutput, Op::PassThrough, Op::PipeOutput, Op::PipeAll, Op::PipeAll, Op::SetSource, Op::SetSource, Op::SetOutputSource, Op::Reset, Op::Compose];

/// Mostly connections, for histories in which cycles come and go.
pub const CYCLE_OPS: &[Op] = &[Op::Push, Op::Chain, Op::Remove, Op::RemoveLink, Op::RemoveLink, Op::Replace, Op::Connect, Op::Connect, Op::Connect, Op::Connect, Op::Connect, Op::Connect, Op::Connect,
    Op::Disconnect, Op::ConnectInput, Op::PipeInput, Op::ConnectOutput, Op::PipeOutput, Op::PipeAll, Op::PipeAll, Op::PipeAll, Op::SetSource, Op::SetSource, Op::SetSource, Op::SetOutputSource, Op::DisconnectOutput, Op::PassThrough];

impl Pair {
    pub fn new(src: &mut Src, maxc: usize) -> Pair {
        let ins = src.size(0, maxc);
        let outs = src.size(0, maxc);
        Pair { net: Net::new(ins, outs), m: NetModel::new(ins, outs), ids: BTreeMap::new(), gone: Vec::new(), next: 0, gens: 0, log: format!("net {}:{}", ins, outs), maxc, rate: DEFAULT_SR }
    }
    /// The unit of a model as it was built by the user: at the default sample rate.
    fn fresh(m: ProbeModel) -> Box<dyn AudioUnit> {
        let mut m = m;
        m.rate = DEFAULT_SR;
        Probe::boxed(m)
    }
    pub fn set_rate(&mut self, rate: f64) {
        self.note(format!("set_sample_rate({rate})"));
        self.rate = rate;
        self.net.set_sample_rate(rate);
        for n in self.m.nodes.values_mut() { n.unit.rate = rate; }
    }
    fn note(&mut self, s: String) { if self.log.len() < 3000 { self.log.push_str("; "); self.log.push_str(&s); } }
    fn probe(&mut self, src: &mut Src) -> ProbeModel {
        let ins = if src.chance(1, 8) { 0 } else { src.size(1, self.maxc) };
        let outs = if src.chance(1, 8) { 0 } else { src.size(1, self.maxc) };
        self.probe_of(src, ins, outs)
    }
    fn probe_of(&mut self, src: &mut Src, ins: usize, outs: usize) -> ProbeModel {
        self.gens += 1;
        let mut p = ProbeModel::new(self.gens, ins, outs, src.below(5) as u8);
        p.rate = self.rate;
        p
    }
    fn key(&self, src: &mut Src) -> Option<u64> {
        if self.ids.is_empty() { return None; }
        let i = src.below(self.ids.len() as u64) as usize;
        Some(*self.ids.keys().nth(i).unwrap())
    }
    fn source(&self, src: &mut Src) -> MSrc {
        match src.below(6) {
            0 => MSrc::Zero,
            1 | 2 if self.m.ins > 0 => MSrc::In(src.below(self.m.ins as u64) as usize),
            _ => match self.key(src) {
                Some(k) if self.m.nodes[&k].unit.outs > 0 => MSrc::Node(k, src.below(self.m.nodes[&k].unit.outs as u64) as usize),
                _ => MSrc::Zero,
            },
        }
    }
    fn other_source(src: &mut Src, ins: usize, nodes: &[(u64, MNode)]) -> MSrc {
        match src.below(5) {
            0 => MSrc::Zero,
            1 | 2 if ins > 0 => MSrc::In(src.below(ins as u64) as usize),
            _ if !nodes.is_empty() => {
                let (k, n) = &nodes[src.below(nodes.len() as u64) as usize];
                if n.unit.outs > 0 { MSrc::Node(*k, src.below(n.unit.outs as u64) as usize) } else { MSrc::Zero }
            }
            _ => MSrc::Zero,
        }
    }
    fn real(&self, s: MSrc) -> Source {
        match s { MSrc::Zero => Source::Zero, MSrc::In(i) => Source::Global(i), MSrc::Node(k, p) => Source::Local(self.ids[&k], p) }
    }
    /// Checks that a unit handed back by an edit is the one in the model.
    fn same_unit(u: &mut Box<dyn AudioUnit>, m: &ProbeModel, what: &str) -> Res {
        ensure!(u.inputs() == m.ins && u.outputs() == m.outs, "returned-unit", "{}: returned unit has arity {}:{} instead of {}:{}", what, u.inputs(), u.outputs(), m.ins, m.outs);
        let mut m = m.clone();
        for k in 0..3 {
            let x: Vec<f32> = (0..m.ins).map(|i| (i + 1) as f32 * 0.25 + k as f32 * 0.125).collect();
            let mut a = vec![0.0; m.outs];
            let mut b = vec![0.0; m.outs];
            u.tick(&x, &mut a);
            m.step(&x, &mut b);
            ensure!(a == b, "returned-unit", "{}: returned unit gives {:?}, the removed unit should give {:?}", what, a, b);
        }
        Ok(())
    }
    /// Applies one edit to both sides. `keep_acyclic`: refuse edits that would close a cycle.
    /// `exact_units`: units handed back can be compared (false for frontends, which hand back clones).
    pub fn edit(&mut self, src: &mut Src, op: Op, keep_acyclic: bool, exact_units: bool) -> Result<bool, vfcore::Fail> {
        let mut m2 = self.m.clone();
        let key = self.key(src);
        macro_rules! accept { () => { if keep_acyclic && !m2.acyclic() { return Ok(false); } self.m = m2; } }
        match op {
            Op::Push => {
                let p = self.probe(src);
                let k = self.next;
                self.next += 1;
                self.note(format!("n{}=push(P{}m{} {}:{})", k, p.id, p.mode, p.ins, p.outs));
                self.m.push(k, p.clone());
                self.ids.insert(k, self.net.push(Self::fresh(p)));
            }
            Op::Chain => {
                let p = self.probe(src);
                let k = self.next;
                self.next += 1;
                self.note(format!("n{}=chain(P{}m{} {}:{})", k, p.id, p.mode, p.ins, p.outs));
                let first = self.m.nodes.is_empty();
                self.m.push(k, p.clone());
                for i in 0..p.ins {
                    let s = if first {
                        if self.m.ins > 0 { MSrc::In(i % self.m.ins) } else { MSrc::Zero }
                    } else if self.m.outs > 0 { self.m.out[i % self.m.outs] } else { MSrc::Zero };
                    self.m.nodes.get_mut(&k).unwrap().src[i] = s;
                }
                for c in 0..self.m.outs { self.m.out[c] = if p.outs > 0 { MSrc::Node(k, c % p.outs) } else { MSrc::Zero }; }
                self.ids.insert(k, self.net.chain(Self::fresh(p)));
            }
            Op::Remove => {
                let Some(k) = key else { return Ok(false) };
                self.note(format!("remove(n{})", k));
                let old = self.m.nodes[&k].unit.clone();
                self.m.remove(k);
                let id = self.ids.remove(&k).unwrap();
                self.gone.push(id);
                let mut u = self.net.remove(id);
                if exact_units { Self::same_unit(&mut u, &old, "remove")?; }
            }
            Op::RemoveLink => {
                let Some(k) = key else { return Ok(false) };
                let n = &self.m.nodes[&k].unit;
                if n.ins != n.outs { return Ok(false); }
                let old = n.clone();
                m2.remove_link(k);
                accept!();
                self.note(format!("remove_link(n{})", k));
                let id = self.ids.remove(&k).unwrap();
                self.gone.push(id);
                let mut u = self.net.remove_link(id);
                if exact_units { Self::same_unit(&mut u, &old, "remove_link")?; }
            }
            Op::Replace => {
                let Some(k) = key else { return Ok(false) };
                let old = self.m.nodes[&k].unit.clone();
                let p = self.probe_of(src, old.ins, old.outs);
                self.note(format!("replace(n{}, P{}m{})", k, p.id, p.mode));
                let n = self.m.nodes.get_mut(&k).unwrap();
                n.unit = p.clone();
                n.gen = self.gens;
                let mut u = self.net.replace(self.ids[&k], Self::fresh(p));
                if exact_units { Self::same_unit(&mut u, &old, "replace")?; }
            }
            Op::Connect => {
                let (Some(a), Some(b)) = (key, self.key(src)) else { return Ok(false) };
                let (o, i) = (self.m.nodes[&a].unit.outs, self.m.nodes[&b].unit.ins);
                if a == b || o == 0 || i == 0 { return Ok(false); }
                let (p, q) = (src.below(o as u64) as usize, src.below(i as u64) as usize);
                m2.nodes.get_mut(&b).unwrap().src[q] = MSrc::Node(a, p);
                accept!();
                self.note(format!("connect(n{}.{} -> n{}.{})", a, p, b, q));
                self.net.connect(self.ids[&a], p, self.ids[&b], q);
            }
            Op::Disconnect => {
                let Some(k) = key else { return Ok(false) };
                let i = self.m.nodes[&k].unit.ins;
                if i == 0 { return Ok(false); }
                let q = src.below(i as u64) as usize;
                self.note(format!("disconnect(n{}.{})", k, q));
                self.m.nodes.get_mut(&k).unwrap().src[q] = MSrc::Zero;
                self.net.disconnect(self.ids[&k], q);
            }
            Op::ConnectInput => {
                let Some(k) = key else { return Ok(false) };
                let i = self.m.nodes[&k].unit.ins;
                if i == 0 || self.m.ins == 0 { return Ok(false); }
                let (g, q) = (src.below(self.m.ins as u64) as usize, src.below(i as u64) as usize);
                self.note(format!("connect_input({} -> n{}.{})", g, k, q));
                self.m.nodes.get_mut(&k).unwrap().src[q] = MSrc::In(g);
                self.net.connect_input(g, self.ids[&k], q);
            }
            Op::PipeInput => {
                let Some(k) = key else { return Ok(false) };
                self.note(format!("pipe_input(n{})", k));
                let gi = self.m.ins;
                for (c, s) in self.m.nodes.get_mut(&k).unwrap().src.iter_mut().enumerate() { *s = if gi > 0 { MSrc::In(c % gi) } else { MSrc::Zero }; }
                self.net.pipe_input(self.ids[&k]);
            }
            Op::ConnectOutput => {
                let Some(k) = key else { return Ok(false) };
                let o = self.m.nodes[&k].unit.outs;
                if o == 0 || self.m.outs == 0 { return Ok(false); }
                let (p, g) = (src.below(o as u64) as usize, src.below(self.m.outs as u64) as usize);
                self.note(format!("connect_output(n{}.{} -> {})", k, p, g));
                self.m.out[g] = MSrc::Node(k, p);
                self.net.connect_output(self.ids[&k], p, g);
            }
            Op::DisconnectOutput => {
                if self.m.outs == 0 { return Ok(false); }
                let g = src.below(self.m.outs as u64) as usize;
                self.note(format!("disconnect_output({})", g));
                self.m.out[g] = MSrc::Zero;
                self.net.disconnect_output(g);
            }
            Op::PassThrough => {
                if self.m.outs == 0 || self.m.ins == 0 { return Ok(false); }
                let (i, g) = (src.below(self.m.ins as u64) as usize, src.below(self.m.outs as u64) as usize);
                self.note(format!("pass_through({} -> {})", i, g));
                self.m.out[g] = MSrc::In(i);
                self.net.pass_through(i, g);
            }
            Op::PipeOutput => {
                let Some(k) = key else { return Ok(false) };
                self.note(format!("pipe_output(n{})", k));
                let o = self.m.nodes[&k].unit.outs;
                for c in 0..self.m.outs { self.m.out[c] = if o > 0 { MSrc::Node(k, c % o) } else { MSrc::Zero }; }
                self.net.pipe_output(self.ids[&k]);
            }
            Op::PipeAll => {
                let (Some(a), Some(b)) = (key, self.key(src)) else { return Ok(false) };
                let o = self.m.nodes[&a].unit.outs;
                if a != b {
                    for (c, s) in m2.nodes.get_mut(&b).unwrap().src.iter_mut().enumerate() { *s = if o > 0 { MSrc::Node(a, c % o) } else { MSrc::Zero }; }
                }
                accept!();
                self.note(format!("pipe_all(n{} -> n{})", a, b));
                self.net.pipe_all(self.ids[&a], self.ids[&b]);
            }
            Op::SetSource => {
                let Some(k) = key else { return Ok(false) };
                let i = self.m.nodes[&k].unit.ins;
                if i == 0 { return Ok(false); }
                let q = src.below(i as u64) as usize;
                let s = self.source(src);
                if matches!(s, MSrc::Node(j, _) if j == k) { return Ok(false); }
                m2.nodes.get_mut(&k).unwrap().src[q] = s;
                accept!();
                self.note(format!("set_source(n{}.{} = {:?})", k, q, s));
                let r = self.real(s);
                self.net.set_source(self.ids[&k], q, r);
            }
            Op::SetOutputSource => {
                if self.m.outs == 0 { return Ok(false); }
                let g = src.below(self.m.outs as u64) as usize;
                let s = self.source(src);
                self.note(format!("set_output_source({} = {:?})", g, s));
                self.m.out[g] = s;
                let r = self.real(s);
                self.net.set_output_source(g, r);
            }
            Op::Reset => {
                self.note("reset".into());
                self.m.reset();
                self.net.reset();
            }
            Op::Compose => {
                // The network becomes an operand of a graph operator that keeps its arity.
                let how = src.below(6);
                let (ins, outs) = (self.m.ins, self.m.outs);
                let (oi, oo) = match how { 0 => (outs, outs), 1 => (ins, ins), 2 | 3 => (ins, 0), _ => (0, 0) };
                let mut other = Net::new(oi, oo);
                // As the left operand it decides the sample rate.
                if how == 1 || how == 3 || how == 5 { other.set_sample_rate(self.rate); }
                let mut added: Vec<(u64, MNode)> = vec![];
                let mut text = String::new();
                for _ in 0..src.size(0, 3) {
                    let p = self.probe(src);
                    let k = self.next;
                    self.next += 1;
                    let id = other.push(Self::fresh(p.clone()));
                    self.ids.insert(k, id);
                    let mut node = MNode { src: vec![MSrc::Zero; p.ins], unit: p.clone(), gen: 0 };
                    for c in 0..p.ins {
                        let s = Self::other_source(src, oi, &added);
                        node.src[c] = s;
                        other.set_source(id, c, self.real(s));
                    }
                    text.push_str(&format!(" n{}=P{}m{} {}:{} {:?}", k, p.id, p.mode, p.ins, p.outs, node.src));
                    added.push((k, node));
                }
                let mut out = vec![];
                for c in 0..oo {
                    let s = Self::other_source(src, oi, &added);
                    out.push(s);
                    other.set_output_source(c, self.real(s));
                }
                let op = ["net >> other", "other >> net", "net ^ other", "other ^ net", "net | other", "other | net"][how as usize];
                self.note(format!("{op} where other has{text} outputs {out:?}"));
                let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                self.net = match how { 0 => net >> other, 1 => other >> net, 2 => net ^ other, 3 => other ^ net, 4 => net | other, _ => other | net };
                match how {
                    0 => {
                        let old = self.m.out.clone();
                        let f = |s: MSrc| match s { MSrc::In(i) => old[i], s => s };
                        for (_, n) in added.iter_mut() { for s in n.src.iter_mut() { *s = f(*s); } }
                        self.m.out = out.into_iter().map(f).collect();
                    }
                    1 => {
                        let f = |s: MSrc| match s { MSrc::In(i) => out[i], s => s };
                        for n in self.m.nodes.values_mut() { for s in n.src.iter_mut() { *s = f(*s); } }
                        for s in self.m.out.iter_mut() { *s = f(*s); }
                    }
                    _ => (),
                }
                for (k, n) in added { self.m.nodes.insert(k, n); }
            }
        }
        Ok(true)
    }
    fn same_source(&self, a: Source, b: MSrc) -> bool {
        match (a, b) {
            (Source::Zero, MSrc::Zero) => true,
            (Source::Global(i), MSrc::In(j)) => i == j,
            (Source::Local(id, p), MSrc::Node(k, q)) => p == q && self.ids.get(&k) == Some(&id),
            _ => false,
        }
    }
    /// Compares all queries with the model.
    pub fn queries(&self) -> Res {
        ensure!(self.net.size() == self.m.nodes.len(), "size", "size {} instead of {} ({})", self.net.size(), self.m.nodes.len(), self.log);
        ensure!(self.net.inputs() == self.m.ins && self.net.outputs() == self.m.outs, "arity", "arity changed ({})", self.log);
        let mut listed: Vec<NodeId> = self.net.ids().copied().collect();
        let mut want: Vec<NodeId> = self.ids.values().copied().collect();
        listed.sort_by_key(|i| i.value());
        want.sort_by_key(|i| i.value());
        ensure!(listed == want, "ids", "listed nodes differ from the pushed ones ({})", self.log);
        for id in &self.gone { ensure!(!self.net.contains(*id), "contains-removed", "a removed node is still contained ({})", self.log); }
        for (k, id) in &self.ids {
            let n = &self.m.nodes[k];
            ensure!(self.net.contains(*id), "contains", "n{} is not contained ({})", k, self.log);
            ensure!(self.net.inputs_in(*id) == n.unit.ins && self.net.outputs_in(*id) == n.unit.outs, "node-arity", "n{}: arity {}:{} ({})", k, self.net.inputs_in(*id), self.net.outputs_in(*id), self.log);
            ensure!(self.net.node(*id).inputs() == n.unit.ins && self.net.node(*id).outputs() == n.unit.outs, "node-access", "n{}: node() has another arity ({})", k, self.log);
            for c in 0..n.unit.ins {
                let s = self.net.source(*id, c);
                ensure!(self.same_source(s, n.src[c]), "source", "source of n{}.{} is {:?} instead of {:?} ({})", k, c, s, n.src[c], self.log);
            }
        }
        for c in 0..self.m.outs {
            let s = self.net.output_source(c);
            ensure!(self.same_source(s, self.m.out[c]), "output-source", "output source {} is {:?} instead of {:?} ({})", c, s, self.m.out[c], self.log);
        }
        self.net.check();
        Ok(())
    }
}
