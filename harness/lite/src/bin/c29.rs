//! C29: pseudorandom behaviour is deterministic and decorrelated.
use fundsp::hacker as h;
use fundsp::hacker::{An, AttoHash, AudioNode, AudioUnit, BigBlockAdapter, BlockRateAdapter, Frame, MlsState, Net, Setting, SignalFrame, BufferMut, BufferRef, U0, U1, U2, U3, U4, U5};
use std::sync::{Arc, Mutex};
use vfcore::render::{all_blocks, describe_steps, gen_steps, render, rnd11, Sig, Step};
use vfcore::*;

type Un = Box<dyn AudioUnit>;
type Log = Arc<Mutex<Vec<f32>>>;

/// A generator that records what it outputs, transparent in every other way.
#[derive(Clone)]
struct Rec<X> { x: X, log: Log }
impl<X: AudioNode<Inputs = U0, Outputs = U1>> AudioNode for Rec<X> {
    const ID: u64 = X::ID;
    type Inputs = U0;
    type Outputs = U1;
    fn reset(&mut self) { self.x.reset(); self.log.lock().unwrap().clear(); }
    fn set_sample_rate(&mut self, sr: f64) { self.x.set_sample_rate(sr); }
    fn tick(&mut self, input: &Frame<f32, U0>) -> Frame<f32, U1> {
        let y = self.x.tick(input);
        self.log.lock().unwrap().push(y[0]);
        y
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        self.x.process(size, input, output);
        let mut log = self.log.lock().unwrap();
        for i in 0..size { log.push(output.at_f32(0, i)); }
    }
    fn set(&mut self, s: Setting) { self.x.set(s); }
    fn set_hash(&mut self, hash: u64) { self.x.set_hash(hash); }
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash { self.x.ping(probe, hash) }
    fn route(&mut self, input: &SignalFrame, f: f64) -> SignalFrame { self.x.route(input, f) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Gen { Noise, White, Mls, Pink, Brown, Sine, Saw, PolySaw, Dsf, Jitter, Pluck, Rossler, Lorenz, Ramp, PolySquare, PolyPulse, Hold, Jitter2, Atomic }
const GENS: &[Gen] = &[Gen::Noise, Gen::White, Gen::Mls, Gen::Pink, Gen::Brown, Gen::Sine, Gen::Saw, Gen::PolySaw, Gen::Dsf, Gen::Jitter, Gen::Pluck, Gen::Rossler, Gen::Lorenz, Gen::Ramp, Gen::PolySquare, Gen::PolyPulse, Gen::Hold, Gen::Jitter2, Gen::Atomic];
impl Gen {
    fn unit(self, log: Log) -> Un {
        fn r<X: AudioNode<Inputs = U0, Outputs = U1> + 'static>(x: An<X>, log: Log) -> Un { Box::new(An(Rec { x: x.0, log })) }
        match self {
            Gen::Noise => r(h::noise(), log),
            Gen::White => r(h::white(), log),
            Gen::Mls => r(h::mls(), log),
            Gen::Pink => r(h::pink(), log),
            Gen::Brown => r(h::brown(), log),
            Gen::Sine => r(h::sine_hz(441.0), log),
            Gen::Saw => r(h::saw_hz(300.0), log),
            Gen::PolySaw => r(h::poly_saw_hz(300.0), log),
            Gen::Dsf => r(h::dc(200.0) >> h::dsf_saw_r(0.5), log),
            // The sample points of an envelope are jittered, which shows on a curve.
            Gen::Jitter => r(h::lfo(|t: f64| (t * 700.0).sin()), log),
            Gen::Pluck => r(h::zero() >> h::pluck(220.0, 0.9, 0.5), log),
            Gen::Rossler => r(h::dc(300.0) >> h::rossler(), log),
            Gen::Lorenz => r(h::dc(300.0) >> h::lorenz(), log),
            Gen::Ramp => r(h::ramp_hz(300.0), log),
            Gen::PolySquare => r(h::poly_square_hz(300.0), log),
            Gen::PolyPulse => r(h::poly_pulse_hz(300.0, 0.3), log),
            Gen::Hold => r((h::white().seed(1) | h::dc(2000.0)) >> h::hold(0.5), log),
            Gen::Jitter2 => r(h::dc(1.0) >> h::lfo2(|t: f64, x: f64| (t * 700.0).sin() * x), log),
            Gen::Atomic => {
                let table = h::AtomicTable::new(&(0..32).map(|i| (i as f32 * 0.2).sin() + i as f32 * 0.1).collect::<Vec<f32>>());
                let mut synth = h::AtomicSynth::<f32>::new(Arc::new(table));
                synth.set_interpolation(h::Interpolation::Linear);
                r(h::dc(300.0) >> An(synth), log)
            }
        }
    }
}

/// Random graph structure over generators: everything has one output and no inputs.
#[derive(Clone, Debug)]
enum T {
    Leaf(usize), Sum(Box<T>, Box<T>), Mul(Box<T>, Box<T>), Bus(Box<T>, Box<T>), Stack(Box<T>, Box<T>), Branch(Box<T>, Box<T>),
    Neg(Box<T>), Filter(Box<T>), Sink(Box<T>, Box<T>), Stacki(Vec<T>), Busi(Vec<T>), Branchi(Vec<T>), Sumi(Vec<T>), Pipei(Vec<T>), Over(Box<T>), Resample(Box<T>), Update(Box<T>),
    Feedback(Box<T>), Feedback2(Box<T>, Box<T>), Big(Box<T>), BlockRate(Box<T>), Net(Box<T>), NetSum(Box<T>, Box<T>), NetStack(Box<T>, Box<T>), NetFlat(Vec<T>), AllNest(Box<T>, bool),
}
fn gen_t(src: &mut Src, depth: usize, leaves: &mut usize) -> T {
    if depth == 0 || *leaves > 12 { *leaves += 1; return T::Leaf(*leaves - 1); }
    let k = src.below(26);
    let d = depth - 1;
    let one = |src: &mut Src, l: &mut usize| Box::new(gen_t(src, d, l));
    let many = |src: &mut Src, l: &mut usize| { let n = src.size(2, 5); (0..n).map(|_| gen_t(src, d, l)).collect::<Vec<T>>() };
    match k {
        0 => T::Sum(one(src, leaves), one(src, leaves)), 1 => T::Mul(one(src, leaves), one(src, leaves)),
        2 => T::Bus(one(src, leaves), one(src, leaves)), 3 => T::Stack(one(src, leaves), one(src, leaves)),
        4 => T::Branch(one(src, leaves), one(src, leaves)), 5 => T::Neg(one(src, leaves)), 6 => T::Filter(one(src, leaves)),
        7 => T::Sink(one(src, leaves), one(src, leaves)), 8 => T::Stacki(many(src, leaves)), 9 => T::Busi(many(src, leaves)),
        10 => T::Branchi(many(src, leaves)), 11 => T::Sumi(many(src, leaves)), 12 => T::Over(one(src, leaves)),
        13 => T::Resample(one(src, leaves)), 14 => T::Update(one(src, leaves)), 15 => T::Feedback(one(src, leaves)),
        16 => T::Feedback2(one(src, leaves), one(src, leaves)), 17 => T::Big(one(src, leaves)), 18 => T::BlockRate(one(src, leaves)),
        19 => T::Net(one(src, leaves)), 20 => T::NetSum(one(src, leaves), one(src, leaves)), 21 => T::NetStack(one(src, leaves), one(src, leaves)),
        22 => T::NetFlat(many(src, leaves)), 23 => T::Pipei(many(src, leaves)), 24 => T::AllNest(one(src, leaves), src.bool()), _ => { *leaves += 1; T::Leaf(*leaves - 1) }
    }
}
fn u(x: Un) -> An<h::Unit<U0, U1>> { h::unit::<U0, U1>(x) }
fn build(t: &T, kinds: &[Gen], logs: &[Log]) -> Un {
    let b = |t: &T| build(t, kinds, logs);
    match t {
        T::Leaf(i) => kinds[*i].unit(logs[*i].clone()),
        T::Sum(x, y) => Box::new(u(b(x)) + u(b(y))),
        T::Mul(x, y) => Box::new(u(b(x)) * u(b(y))),
        T::Bus(x, y) => Box::new(u(b(x)) & u(b(y))),
        T::Stack(x, y) => Box::new((u(b(x)) | u(b(y))) >> h::join::<U2>()),
        T::Branch(x, y) => Box::new((u(b(x)) ^ u(b(y))) >> h::join::<U2>()),
        T::Neg(x) => Box::new(-u(b(x))),
        T::Filter(x) => Box::new(u(b(x)) >> h::lowpole_hz(1000.0)),
        T::Sink(x, y) => Box::new((u(b(x)) >> h::sink()) | u(b(y))),
        T::Stacki(v) => { let f = |i: u64| u(b(&v[i as usize])); match v.len() {
            2 => Box::new(h::stacki::<U2, _, _>(f) >> h::join::<U2>()), 3 => Box::new(h::stacki::<U3, _, _>(f) >> h::join::<U3>()),
            4 => Box::new(h::stacki::<U4, _, _>(f) >> h::join::<U4>()), _ => Box::new(h::stacki::<U5, _, _>(f) >> h::join::<U5>()) } }
        T::Busi(v) => { let f = |i: u64| u(b(&v[i as usize])); match v.len() {
            2 => Box::new(h::busi::<U2, _, _>(f)), 3 => Box::new(h::busi::<U3, _, _>(f)), 4 => Box::new(h::busi::<U4, _, _>(f)), _ => Box::new(h::busi::<U5, _, _>(f)) } }
        T::Branchi(v) => { let f = |i: u64| u(b(&v[i as usize])); match v.len() {
            2 => Box::new(h::branchi::<U2, _, _>(f) >> h::join::<U2>()), 3 => Box::new(h::branchi::<U3, _, _>(f) >> h::join::<U3>()),
            4 => Box::new(h::branchi::<U4, _, _>(f) >> h::join::<U4>()), _ => Box::new(h::branchi::<U5, _, _>(f) >> h::join::<U5>()) } }
        T::Sumi(v) => { let f = |i: u64| u(b(&v[i as usize])); match v.len() {
            2 => Box::new(h::sumi::<U2, _, _>(f)), 3 => Box::new(h::sumi::<U3, _, _>(f)), 4 => Box::new(h::sumi::<U4, _, _>(f)), _ => Box::new(h::sumi::<U5, _, _>(f)) } }
        T::Pipei(v) => { let f = |i: u64| h::pass() & (h::sink() | u(b(&v[i as usize]))); match v.len() {
            2 => Box::new(h::zero() >> h::pipei::<U2, _, _>(f)), 3 => Box::new(h::zero() >> h::pipei::<U3, _, _>(f)), 4 => Box::new(h::zero() >> h::pipei::<U4, _, _>(f)), _ => Box::new(h::zero() >> h::pipei::<U5, _, _>(f)) } }
        T::Over(x) => Box::new(h::oversample(u(b(x)))),
        T::Resample(x) => Box::new(h::dc(1.0) >> h::resample(u(b(x)))),
        T::Update(x) => Box::new(h::update(u(b(x)), 0.01, |_, _, _| ())),
        T::Feedback(x) => Box::new(h::zero() >> h::feedback(h::pass() * 0.1 + u(b(x)))),
        T::Feedback2(x, y) => Box::new(h::zero() >> h::feedback2(h::pass() * 0.1 + u(b(x)), h::pass() * 0.1 + u(b(y)))),
        T::AllNest(x, false) => Box::new(h::zero() >> h::allnest_c(0.5, h::pass() * 0.1 + u(b(x)))),
        T::AllNest(x, true) => Box::new((h::zero() | h::dc(0.3)) >> h::allnest(h::pass() * 0.1 + u(b(x)))),
        T::Big(x) => Box::new(BigBlockAdapter::new(b(x))),
        T::BlockRate(x) => Box::new(BlockRateAdapter::new(b(x))),
        T::Net(x) => Box::new(Net::wrap(b(x))),
        T::NetSum(x, y) => Box::new(Net::wrap(b(x)) + Net::wrap(b(y))),
        T::NetStack(x, y) => Box::new((Net::wrap(b(x)) | Net::wrap(b(y))) >> Net::wrap(Box::new(h::join::<U2>()))),
        T::NetFlat(v) => {
            let mut net = Net::new(0, 1);
            let ids: Vec<_> = v.iter().map(|t| net.push(b(t))).collect();
            net.pipe_output(ids[0]);
            Box::new(net)
        }
    }
}

fn corr(a: &[f32], b: &[f32]) -> f64 {
    let n = a.len().min(b.len());
    let m = |v: &[f32]| v[..n].iter().map(|x| *x as f64).sum::<f64>() / n as f64;
    let (ma, mb) = (m(a), m(b));
    let (mut s, mut sa, mut sb) = (0.0, 0.0, 0.0);
    for i in 0..n { let (x, y) = (a[i] as f64 - ma, b[i] as f64 - mb); s += x * y; sa += x * x; sb += y * y; }
    s / (sa * sb).sqrt().max(1.0e-12)
}

/// Generators in random graphs: same structure, same signals; different positions, different signals.
fn graphs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut leaves = 0;
    let depth = src.size(1, 4);
    let t = gen_t(src, depth, &mut leaves);
    let same_kind = src.chance(2, 3);
    let k0 = *src.pick(GENS);
    let kinds: Vec<Gen> = (0..leaves).map(|_| if same_kind { k0 } else { *src.pick(GENS) }).collect();
    let mk = || -> Vec<Log> { (0..leaves).map(|_| Log::default()).collect() };
    let n = 1024;
    let (la, lb) = (mk(), mk());
    let mut a = build(&t, &kinds, &la);
    // Something else is built in between.
    let noise = Net::wrap(Box::new(h::noise()) as Un);
    let mut b = build(&t, &kinds, &lb);
    drop(noise);
    let custom = src.chance(1, 3);
    let sr = *src.pick(&[44100.0, 48000.0]);
    a.set_sample_rate(sr);
    b.set_sample_rate(sr);
    if custom {
        let s = src.seed();
        a.ping(false, AttoHash::new(s));
        b.ping(false, AttoHash::new(s));
        ctx.label("custom hash");
    }
    for l in la.iter().chain(&lb) { l.lock().unwrap().clear(); }
    a.reset();
    let steps = gen_steps(src, n);
    let sa = render(&mut *a, &vec![], 0, &steps);
    let b_fresh = src.bool();
    if !b_fresh { render(&mut *b, &vec![], 0, &[Step::Tick(17)]); b.reset(); }
    let sb = render(&mut *b, &vec![], 0, &steps);
    ctx.note(format!("{t:?} of {kinds:?} at {sr}, {}", describe_steps(&steps)));
    if leaves > 1 { ctx.nontrivial(); }
    for i in 0..n { ensure!(same(sa[0][i], sb[0][i]), "determinism", "the same structure gives {} and then {} at sample {i}: {t:?} of {kinds:?}", sa[0][i], sb[0][i]); }
    let logs: Vec<Vec<f32>> = la.iter().map(|l| l.lock().unwrap().clone()).collect();
    for i in 0..leaves {
        if logs[i].len() < 500 { continue; }
        for j in 0..i {
            if kinds[i] != kinds[j] && !(matches!(kinds[i], Gen::Noise | Gen::White) && matches!(kinds[j], Gen::Noise | Gen::White)) { continue; }
            if logs[j].len() < 500 { continue; }
            let (x, y) = (&logs[i], &logs[j]);
            let m = x.len().min(y.len());
            ensure!(x[..m] != y[..m], "position", "generators {j} and {i} ({:?}) give the same signal: {t:?}", kinds[i]);
            if matches!(kinds[i], Gen::Noise | Gen::White) {
                let c = corr(x, y);
                ensure!(c.abs() < 0.28, "position", "generators {j} and {i} ({:?}) correlate by {c}: {t:?}", kinds[i]);
            }
        }
    }
    // Another custom hash changes every generator.
    if custom {
        let lc = mk();
        let mut c = build(&t, &kinds, &lc);
        c.set_sample_rate(sr);
        c.ping(false, AttoHash::new(src.seed() ^ 0x1234_5678_9abc));
        c.reset();
        for l in &lc { l.lock().unwrap().clear(); }
        render(&mut *c, &vec![], 0, &steps);
        for i in 0..leaves {
            let y = lc[i].lock().unwrap().clone();
            let m = y.len().min(logs[i].len());
            if m < 500 { continue; }
            ensure!(y[..m] != logs[i][..m], "custom hash", "generator {i} ({:?}) does not depend on the hash given to the graph: {t:?}", kinds[i]);
        }
    }
    // One pair at small lags.
    if leaves >= 2 && same_kind && matches!(k0, Gen::Noise | Gen::White) {
        let i = src.size(0, leaves - 1);
        let j = (i + 1) % leaves;
        if logs[i].len() > 500 && logs[j].len() > 500 {
            for lag in 1..24 {
                for (x, y) in [(&logs[i], &logs[j]), (&logs[j], &logs[i])] {
                    let m = x.len().min(y.len()) - lag;
                    let c = corr(&x[..m], &y[lag..lag + m]);
                    ensure!(c.abs() < 0.32, "position", "generators {i} and {j} correlate by {c} at lag {lag}: {t:?}");
                }
            }
        }
    }
    Ok(())
}

/// Explicit seeds override the position, whatever is around the generator.
fn seeds(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(6);
    let mut seed = match src.below(3) { 0 => src.below(20), 1 => src.seed() & 0xffff_ffff, _ => src.seed() };
    let bits = src.size(1, 31) as u64;
    let n = src.size(30, 300);
    let make = |seed: u64| -> Un {
        match kind { 0 => Box::new(h::noise().seed(seed)), 1 => Box::new(h::white().seed(seed)), 2 => Box::new(h::pink().seed(seed)), 3 => Box::new(h::brown().seed(seed)), 4 => Box::new(h::mls().seed(seed)), _ => Box::new(h::mls_bits(bits).seed(seed)) }
    };
    let name = ["noise", "white", "pink", "brown", "mls", "mls_bits"][kind as usize];
    let mut a = make(seed);
    let want = render(&mut *a, &vec![], 0, &gen_steps(src, n));
    // Anywhere in a graph.
    let mut b: Un = match src.below(6) {
        0 => Box::new((u(Box::new(h::noise())) | u(make(seed))) >> (h::sink() | h::pass())),
        1 => Box::new(Net::wrap(make(seed))),
        2 => { let mut net = Net::new(0, 1); net.push(Box::new(h::noise())); let id = net.push(make(seed)); net.pipe_output(id); Box::new(net) }
        3 => Box::new(h::zero() + u(make(seed))),
        4 => Box::new((u(make(seed)) | u(Box::new(h::noise()))) >> (h::pass() | h::sink())),
        _ => Box::new(BlockRateAdapter::new(make(seed))),
    };
    if src.bool() { b.ping(false, AttoHash::new(src.seed())); }
    b.set_sample_rate(44100.0);
    if src.bool() { let m = src.size(1, 80); render(&mut *b, &vec![], 0, &gen_steps(src, m)); b.reset(); ctx.label("after reset"); }
    if src.chance(1, 3) { b = b.clone(); }
    let got = render(&mut *b, &vec![], 0, &gen_steps(src, n));
    ctx.nontrivial();
    ctx.note(format!("{name} seed {seed} bits {bits}"));
    for i in 0..n { ensure!(same(want[0][i], got[0][i]), "seed", "{name} with seed {seed} in a graph gives {} instead of {} at sample {i}", got[0][i], want[0][i]); }
    // Another seed, another signal. (Seeds are folded to 32 bits, and MLS states to the sequence length.)
    let other = seed ^ (1 << src.below(20));
    seed &= 0xffff_ffff;
    if kind < 5 && (other as u32) % ((1 << 29) - 1) != (seed as u32) % ((1 << 29) - 1) {
        let mut c = make(other);
        let y = render(&mut *c, &vec![], 0, &gen_steps(src, n));
        ensure!(y != want, "seed", "{name} gives the same signal with seeds {seed} and {other}");
    }
    // Reseeding a playing generator takes effect at the next reset.
    let mut r = make(other);
    render(&mut *r, &vec![], 0, &[Step::Tick(5)]);
    let s = Setting::seed(seed);
    r.set(if kind == 2 || kind == 3 { s.left() } else { s });
    r.reset();
    let mut fresh = make(seed);
    ensure!(render(&mut *r, &vec![], 0, &[Step::Block(20)]) == render(&mut *fresh, &vec![], 0, &[Step::Block(20)]), "reseed", "{name} reseeded to {seed} and reset differs from one built with that seed");
    Ok(())
}

/// White noise: range, uniform distribution and whiteness, for any seed.
fn noise_law(src: &mut Src, ctx: &mut Ctx) -> Res {
    let by_hash = src.bool();
    let seed = match src.below(3) { 0 => src.below(1000), 1 => u32::MAX as u64 - src.below(6000), _ => src.seed() };
    let mut x: Un = if by_hash { Box::new(h::noise()) } else { Box::new(h::white().seed(seed)) };
    if by_hash { x.ping(false, AttoHash::new(seed)); }
    let n = 4096;
    let y = render(&mut *x, &vec![], 0, &gen_steps(src, n)).remove(0);
    ctx.nontrivial();
    ctx.note(format!("noise seed {seed} by hash {by_hash}"));
    ensure!(y.iter().all(|v| v.abs() <= 1.0), "noise", "noise exceeds -1...1 with seed {seed}");
    let nf = n as f64;
    let mean = y.iter().map(|v| *v as f64).sum::<f64>() / nf;
    ensure!(mean.abs() < 7.0 * (1.0 / 3.0 / nf).sqrt(), "noise", "mean {mean} with seed {seed}");
    let var = y.iter().map(|v| (*v as f64).powi(2)).sum::<f64>() / nf;
    ensure!((var - 1.0 / 3.0).abs() < 7.0 * (4.0 / 45.0 / nf).sqrt(), "noise", "power {var} with seed {seed}");
    let mut bins = [0usize; 16];
    for v in &y { bins[(((*v as f64 + 1.0) * 8.0) as usize).min(15)] += 1; }
    for (i, b) in bins.iter().enumerate() {
        let e = nf / 16.0;
        ensure!((*b as f64 - e).abs() < 7.5 * (e * 15.0 / 16.0).sqrt(), "noise", "{b} of {n} samples fall in bin {i} of 16 with seed {seed}");
    }
    ensure!(y.iter().cloned().fold(-1.0f32, f32::max) > 0.98 && y.iter().cloned().fold(1.0f32, f32::min) < -0.98, "noise", "the range is not covered with seed {seed}");
    for lag in [1usize, 2, 3, 4, 7, 8, 16, 31, 64, 128] {
        let c = corr(&y[..n - lag], &y[lag..]);
        ensure!(c.abs() < 7.0 / nf.sqrt(), "noise", "autocorrelation {c} at lag {lag} with seed {seed}");
    }
    // Low order bits of consecutive samples: sign bit pairs.
    let mut pairs = [0usize; 4];
    for w in y.windows(2) { pairs[((w[0] > 0.0) as usize) * 2 + (w[1] > 0.0) as usize] += 1; }
    for p in pairs { ensure!((p as f64 - nf / 4.0).abs() < 8.0 * (nf * 3.0 / 16.0).sqrt(), "noise", "sign pairs {pairs:?} with seed {seed}"); }
    Ok(())
}

/// Colored noise: pink falls by 3 dB and brown by 6 dB an octave.
fn color(src: &mut Src, ctx: &mut Ctx) -> Res {
    let brown = src.bool();
    let seed = src.seed();
    let mut x: Un = if brown { Box::new(h::brown().seed(seed)) } else { Box::new(h::pink().seed(seed)) };
    let n = 1 << 15;
    let y = render(&mut *x, &vec![], 0, &all_blocks(n)).remove(0);
    ctx.nontrivial();
    ctx.note(format!("brown {brown} seed {seed}"));
    // Power in two octave bands by averaging Goertzel bins at spaced frequencies.
    let power = |f0: f64| -> f64 {
        let bins = 48;
        let seg = 4096;
        let mut p = 0.0;
        let mut cnt = 0;
        for s in 0..n / seg {
            for k in 0..bins {
                let w = core::f64::consts::TAU * f0 * (0.84 + 0.36 * k as f64 / bins as f64) / 44100.0;
                let (mut re, mut im) = (0.0, 0.0);
                let (c, d) = (w.cos(), w.sin());
                let (mut cr, mut ci) = (1.0, 0.0);
                for i in 0..seg {
                    let win = 0.5 - 0.5 * (core::f64::consts::TAU * i as f64 / seg as f64).cos();
                    let v = y[s * seg + i] as f64 * win;
                    re += v * cr; im += v * ci;
                    let t = cr * c - ci * d; ci = cr * d + ci * c; cr = t;
                }
                p += re * re + im * im;
                cnt += 1;
            }
        }
        p / cnt as f64
    };
    let (lo, hi) = (power(600.0), power(4800.0));
    let slope = 10.0 * (hi / lo).log10() / 3.0;
    let want = if brown { -6.02 } else { -3.01 };
    ensure!((slope - want).abs() < 1.2, "color", "{} noise falls by {slope} dB an octave with seed {seed}", if brown { "brown" } else { "pink" });
    Ok(())
}

/// Linear complexity of a bit sequence and its connection polynomial (Berlekamp-Massey).
fn massey(s: &[u8]) -> Vec<u8> {
    let (mut c, mut b) = (vec![1u8], vec![1u8]);
    let (mut l, mut m) = (0usize, 1usize);
    for n in 0..s.len() {
        let mut d = s[n];
        for i in 1..=l { if i < c.len() { d ^= c[i] & s[n - i]; } }
        if d == 0 { m += 1; continue; }
        let t = c.clone();
        if c.len() < b.len() + m { c.resize(b.len() + m, 0); }
        for (i, x) in b.iter().enumerate() { c[i + m] ^= x; }
        if 2 * l <= n { l = n + 1 - l; b = t; m = 1; } else { m += 1; }
    }
    c.resize(l + 1, 0);
    c
}
/// Is the polynomial of degree n primitive over GF(2)?
fn primitive(c: &[u8]) -> bool {
    let n = c.len() - 1;
    if n == 0 { return false; }
    // The reciprocal has the same order.
    let p: u64 = c.iter().enumerate().fold(0, |a, (i, x)| a | ((*x as u64) << (n - i)));
    let mulmod = |a: u64, b: u64| { let (mut a, mut b, mut r) = (a, b, 0u64); while b > 0 { if b & 1 == 1 { r ^= a; } b >>= 1; a <<= 1; if a >> n & 1 == 1 { a ^= p; } } r };
    let pw = |mut e: u64| { let mut b = if n == 1 { (2 ^ p) & 1 } else { 2 }; let mut r = 1u64; while e > 0 { if e & 1 == 1 { r = mulmod(r, b); } b = mulmod(b, b); e >>= 1; } r };
    let order = (1u64 << n) - 1;
    if pw(order) != 1 { return false; }
    let mut q = order;
    let mut f = 2u64;
    let mut primes = vec![];
    while f * f <= q { if q % f == 0 { primes.push(f); while q % f == 0 { q /= f; } } f += 1; }
    if q > 1 { primes.push(q); }
    primes.iter().all(|f| *f == order || pw(order / f) != 1)
}

/// Maximum length sequences of every size from any state.
fn mls(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(1, 31) as u32;
    let seed = src.seed() as u32;
    let seeded = src.bool();
    let mut s = if seeded { MlsState::new_with_seed(n, seed) } else { MlsState::new(n) };
    let len = (1u64 << n) - 1;
    ctx.note(format!("{n} bits seed {seed} seeded {seeded}"));
    ctx.nontrivial();
    ensure!(s.length() as u64 == len, "mls", "length {} for {n} bits", s.length());
    let take = 160usize;
    let start = s;
    let bits: Vec<u8> = (0..take).map(|_| { let v = s.value(); s = s.next(); v as u8 }).collect();
    ensure!(bits.iter().all(|b| *b <= 1), "mls", "value beyond 0 and 1");
    let c = massey(&bits);
    ensure!(c.len() - 1 == n as usize && primitive(&c), "mls", "{n}-bit sequence from state {seed} obeys {c:?}, which does not have maximum length");
    // The recurrence continues to hold far out.
    let far = src.size(0, 5000);
    for _ in 0..far { s = s.next(); }
    let more: Vec<u8> = (0..100).map(|_| { let v = s.value(); s = s.next(); v as u8 }).collect();
    for i in n as usize..100 {
        let e = (1..=n as usize).fold(0u8, |a, j| a ^ (c[j] & more[i - j]));
        ensure!(e == more[i], "mls", "{n}-bit sequence leaves its recurrence after {far} steps");
    }
    // Walk through short sequences: period and balance.
    if n <= 14 {
        ctx.label("whole period");
        let mut s = start;
        let first: Vec<u32> = { let mut t = start; (0..n).map(|_| { let v = t.value(); t = t.next(); v }).collect() };
        let mut ones = 0u64;
        for _ in 0..len { ones += s.value() as u64; s = s.next(); }
        ensure!(ones == 1 << (n - 1), "mls", "{ones} ones in a period of {len}");
        let again: Vec<u32> = { let mut t = s; (0..n).map(|_| { let v = t.value(); t = t.next(); v }).collect() };
        ensure!(first == again, "mls", "the {n}-bit sequence does not repeat after {len} steps");
    }
    // The generator plays the sequence as -1 and 1.
    let mut g: Un = Box::new(h::mls_bits(n as u64).seed(seed as u64));
    let y = render(&mut *g, &vec![], 0, &gen_steps(src, 200)).remove(0);
    ensure!(y.iter().all(|v| *v == 1.0 || *v == -1.0), "mls", "mls_bits({n}) outputs other values than -1 and 1");
    for i in n as usize..200 {
        let bit = |k: usize| (y[k] > 0.0) as u8;
        let e = (1..=n as usize).fold(0u8, |a, j| a ^ (c[j] & bit(i - j)));
        ensure!(e == bit(i), "mls", "mls_bits({n}) leaves the recurrence at sample {i}");
    }
    Ok(())
}

/// Sample and hold: holds input samples for the sampling interval, varied within the variability.
fn hold(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(&[44100.0, 48000.0, 8000.0]);
    let f = src.logf32(20.0, (sr * 0.3) as f32);
    let v = if src.chance(1, 3) { 0.0 } else { src.f32(0.0, 1.0) };
    let by_input = src.bool();
    let by_set = src.bool();
    let n = src.size(200, 3000);
    let v0 = if by_set { src.f32(0.0, 1.0) } else { v };
    let mut x: Un = if by_input { Box::new(h::hold(v0)) } else { Box::new(h::hold_hz(f, v0)) };
    if by_set { let s = Setting::variability(v); x.set(if by_input { s } else { s.right() }); }
    x.set_sample_rate(sr);
    if src.bool() { x.ping(false, AttoHash::new(src.seed())); }
    let seed = src.seed();
    // A strictly increasing input names the sample it was taken from.
    let ramp: Vec<f32> = (0..n).map(|i| i as f32).collect();
    let mut input: Sig = vec![ramp];
    if by_input { input.push(vec![f; n]); }
    if src.chance(1, 3) { let m = src.size(1, 60); render(&mut *x, &(0..input.len()).map(|c| (0..m).map(|i| if c == 0 { rnd11(seed, i as u64) } else { f }).collect()).collect::<Sig>(), 0, &gen_steps(src, m)); x.reset(); }
    let y = render(&mut *x, &input, 0, &gen_steps(src, n)).remove(0);
    ctx.note(format!("hold {f} Hz variability {v} by input {by_input} sr {sr}"));
    ensure!(y[0] == 0.0, "hold", "the first sample is not taken at once: {}", y[0]);
    let mut last = 0usize;
    let mut gaps = vec![];
    for i in 1..n {
        if y[i] != y[i - 1] {
            ensure!(y[i] == i as f32, "hold", "output {} at sample {i} is not the input there", y[i]);
            gaps.push(i - last);
            last = i;
        }
    }
    let t = sr / f as f64;
    for g in &gaps {
        let (lo, hi) = (t * (1.0 - v as f64) - 1.0e-3, t * (1.0 + v as f64) + 1.001);
        ensure!(*g as f64 >= lo.floor() && *g as f64 <= hi, "hold", "held for {g} samples where the interval is {t} with variability {v} (f {f}, sr {sr})");
    }
    ensure!((n - last) as f64 <= t * (1.0 + v as f64) + 1.5, "hold", "held for the last {} samples where the interval is {t}", n - last);
    if gaps.len() > 2 { ctx.nontrivial(); }
    // Varied indeed.
    if v > 0.3 && t > 20.0 && gaps.len() > 8 {
        let (mn, mx) = (*gaps.iter().min().unwrap() as f64, *gaps.iter().max().unwrap() as f64);
        ensure!(mx - mn > 0.1 * v as f64 * t, "hold", "hold times {gaps:?} do not vary by {v}");
        ctx.label("varied");
    }
    Ok(())
}

/// Hash functions are permutations: no two inputs collide; successive values look random.
fn hashes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let base = match src.below(3) { 0 => src.below(1 << 20), 1 => u64::MAX - src.below(5000), _ => src.seed() };
    let stride = match src.below(4) { 0 => 1u64, 1 => 1 << src.below(60), 2 => 2 * src.below(1000) + 1, _ => src.seed() | 1 };
    let n = 1500u64;
    ctx.note(format!("from {base} by {stride}"));
    ctx.nontrivial();
    for which in 0..2 {
        let f = |x: u64| if which == 0 { h::hash1(x) } else { h::hash2(x) };
        let xs: Vec<u64> = { let mut v: Vec<u64> = (0..n).map(|i| base.wrapping_add(i.wrapping_mul(stride))).collect(); v.sort(); v.dedup(); v };
        let mut ys: Vec<u64> = xs.iter().map(|x| f(*x)).collect();
        ys.sort();
        ys.dedup();
        ensure!(ys.len() == xs.len(), "hash", "hash{} collides among {} distinct values from {base} by {stride}", which + 1, xs.len());
        if stride == 1 {
            for bit in 0..64 {
                let c = (0..n).filter(|i| f(base.wrapping_add(*i)) >> bit & 1 == 1).count() as f64;
                ensure!((c - n as f64 / 2.0).abs() < 7.5 * (n as f64 / 4.0).sqrt(), "hash", "bit {bit} of hash{} is set in {c} of {n} successive values from {base}", which + 1);
            }
            let r = |x: u64| if which == 0 { h::rnd1(x) } else { h::rnd2(x) };
            let m = (0..n).map(|i| r(base.wrapping_add(i))).sum::<f64>() / n as f64;
            ensure!((0..n).all(|i| (0.0..1.0).contains(&r(base.wrapping_add(i)))), "rnd", "rnd{} leaves 0...1 from {base}", which + 1);
            ensure!((m - 0.5).abs() < 7.0 / (12.0 * n as f64).sqrt(), "rnd", "rnd{} averages {m} from {base}", which + 1);
        }
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C29",
        rule: "random graphs (25 constructs, nested up to four deep, over ten kinds of generators) built twice and rendered under random schedules, each generator's own signal recorded: same structure same signals, any two generators of a kind different (white noise uncorrelated at lags up to 24); non-trivial with at least two generators. Seeds, noise statistics, MLS recurrences, hold times and hashes: always non-trivial (hold: at least three intervals)",
        assumptions: &[
            "white noise generators are the same long sequence entered at a pseudorandom point: overlap within 24 samples of each other is taken as correlation",
            "statistical limits are above seven standard deviations",
            "events of a sequencer keep the phase they were built with",
        ],
        subs: vec![
            Sub { name: "graphs", f: graphs, quick: 30000, thorough: 600_000 },
            Sub { name: "seeds", f: seeds, quick: 40000, thorough: 800_000 },
            Sub { name: "noise", f: noise_law, quick: 8000, thorough: 200_000 },
            Sub { name: "color", f: color, quick: 60, thorough: 2000 },
            Sub { name: "mls", f: mls, quick: 8000, thorough: 200_000 },
            Sub { name: "hold", f: hold, quick: 40000, thorough: 800_000 },
            Sub { name: "hashes", f: hashes, quick: 10000, thorough: 200_000 },
        ],
    });
}
