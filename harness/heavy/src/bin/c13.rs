//! C13: a setting reaches exactly the node its address names.
use fundsp::hacker as h;
use fundsp::hacker::{unit, An, AudioNode, AudioUnit, BigBlockAdapter, BiquadCoefs, Frame, Net, NodeId, Parameter, Setting, Tanh, U0, U1, U2, U3, U4};
use fundsp::setting::SettingSender;
use vfcore::kind::Kind;
use vfcore::render::*;
use vfcore::*;
use vfgraph::{Eval, Leaves, G};
use vfnodes as nodes;

type Un = Box<dyn AudioUnit>;

/// Nested structures; every part has one input and one output except possibly the root.
#[derive(Clone)]
enum T { G(G), Multi(usize, Vec<T>), Net(Vec<T>), Wrap(usize, Box<T>) }

impl T {
    fn arity(&self) -> (usize, usize) {
        match self {
            T::G(g) => (g.ins(), g.outs()),
            T::Multi(k, v) => match k { 0 | 1 => (1, 1), 2 => (v.len(), v.len()), 3 => (1, v.len()), _ => (v.len(), 1) },
            T::Net(_) => (1, 1),
            T::Wrap(_, t) => t.arity(),
        }
    }
    fn describe(&self) -> String {
        let list = |v: &Vec<T>| v.iter().map(|t| t.describe()).collect::<Vec<_>>().join(", ");
        match self {
            T::G(g) => g.describe(),
            T::Multi(k, v) => format!("{}[{}]", ["busi", "pipei", "stacki", "branchi", "sumi"][*k], list(v)),
            T::Net(v) => format!("net[{}]", list(v)),
            T::Wrap(k, t) => format!("{}({})", ["listen", "big_block", "update"][*k], t.describe()),
        }
    }
}

enum M { G(Eval, usize), Multi(usize, Vec<M>), Net(Vec<M>), Wrap(Box<M>) }
fn model(t: &T) -> M {
    match t {
        T::G(g) => M::G(Eval::new(g), g.outs()),
        T::Multi(k, v) => M::Multi(*k, v.iter().map(model).collect()),
        T::Net(v) => M::Net(v.iter().map(model).collect()),
        T::Wrap(_, t) => M::Wrap(Box::new(model(t))),
    }
}
fn step(m: &mut M, x: &[f32]) -> Vec<f32> {
    match m {
        M::G(e, _) => e.step(x),
        M::Wrap(t) => step(t, x),
        M::Net(v) | M::Multi(1, v) => { let mut y = x.to_vec(); for t in v { y = step(t, &y); } y }
        M::Multi(0, v) => { let mut y = step(&mut v[0], x); for t in &mut v[1..] { let z = step(t, x); y[0] += z[0]; } y }
        M::Multi(2, v) => v.iter_mut().zip(x).map(|(t, a)| step(t, &[*a])[0]).collect(),
        M::Multi(3, v) => v.iter_mut().map(|t| step(t, x)[0]).collect(),
        M::Multi(_, v) => { let mut y = step(&mut v[0], &x[..1]); for (i, t) in v.iter_mut().enumerate().skip(1) { let z = step(t, &x[i..i + 1]); y[0] += z[0]; } y }
    }
}

/// Address steps: left, right, index, node of the n-th network.
#[derive(Clone, PartialEq, Debug)]
enum A { L, R, I(usize), N(usize) }
/// All paths to leaves: address and model path.
fn paths(t: &T) -> Vec<Vec<A>> {
    match t {
        T::G(g) => g.leaf_paths().into_iter().map(|p| p.into_iter().map(|b| if b { A::R } else { A::L }).collect()).collect(),
        T::Multi(_, v) => v.iter().enumerate().flat_map(|(i, t)| paths(t).into_iter().map(move |p| { let mut q = vec![A::I(i)]; q.extend(p); q })).collect(),
        T::Net(v) => v.iter().enumerate().flat_map(|(i, t)| paths(t).into_iter().map(move |p| { let mut q = vec![A::N(i)]; q.extend(p); q })).collect(),
        T::Wrap(_, t) => paths(t),
    }
}
fn set_model(m: &mut M, p: &[A], id: u64) {
    match m {
        M::G(e, _) => { let q: Vec<bool> = p.iter().map(|a| *a == A::R).collect(); e.with_probe(&q, |m| m.id = id) }
        M::Wrap(t) => set_model(t, p, id),
        M::Multi(_, v) => { if let A::I(i) = p[0] { set_model(&mut v[i], &p[1..], id) } else { panic!() } }
        M::Net(v) => { if let A::N(i) = p[0] { set_model(&mut v[i], &p[1..], id) } else { panic!() } }
    }
}

struct Built { unit: Un, senders: Vec<SettingSender> }
/// Builds the real thing. `ids` receives the node identities of each network, in order of construction.
fn build(t: &T, ids: &mut Vec<(String, Vec<NodeId>)>, at: &str, senders: &mut Vec<SettingSender>) -> Un {
    match t {
        T::G(g) => vfgraph::build(g),
        T::Multi(k, v) => {
            let u: std::cell::RefCell<Vec<Option<Un>>> = std::cell::RefCell::new(v.iter().enumerate().map(|(i, t)| Some(build(t, ids, &format!("{}/{}", at, i), senders))).collect());
            macro_rules! go { ($N:ident) => {{
                let f = |i: u64| unit::<U1, U1>(u.borrow_mut()[i as usize].take().unwrap());
                match k { 0 => Box::new(h::busi::<$N, _, _>(&f)) as Un, 1 => Box::new(h::pipei::<$N, _, _>(&f)), 2 => Box::new(h::stacki::<$N, _, _>(&f)), 3 => Box::new(h::branchi::<$N, _, _>(&f)), _ => Box::new(h::sumi::<$N, _, _>(&f)) }
            }} }
            match v.len() { 1 => go!(U1), 2 => go!(U2), 3 => go!(U3), _ => go!(U4) }
        }
        T::Net(v) => {
            let mut net = Net::new(1, 1);
            let mut l = vec![];
            for (i, t) in v.iter().enumerate() { let u = build(t, ids, &format!("{}/{}", at, i), senders); l.push(net.push(u)); }
            net.pipe_input(l[0]);
            for i in 1..l.len() { net.pipe_all(l[i - 1], l[i]); }
            net.pipe_output(*l.last().unwrap());
            ids.push((at.to_string(), l));
            Box::new(net)
        }
        T::Wrap(k, t) => {
            let u = build(t, ids, at, senders);
            match k {
                0 => { let (s, n) = h::listen(unit::<U1, U1>(u)); senders.push(s); Box::new(n) }
                1 => Box::new(BigBlockAdapter::new(u)),
                _ => Box::new(h::update(unit::<U1, U1>(u), 0.01, |_, _, _| ())),
            }
        }
    }
}

fn gen_t(src: &mut Src, depth: usize, next: &mut u64, root: bool) -> T {
    if depth == 0 || src.chance(1, 4) {
        let d = src.size(0, 3);
        return T::G(vfgraph::gen(src, 1, 1, d, Leaves::Probes, next));
    }
    match src.below(5) {
        0 | 1 => {
            let k = if root { src.below(5) } else { src.below(2) } as usize;
            let n = src.size(1, 4);
            T::Multi(k, (0..n).map(|_| gen_t(src, depth - 1, next, false)).collect())
        }
        2 | 3 => { let n = src.size(1, 3); T::Net((0..n).map(|_| gen_t(src, depth - 1, next, false)).collect()) }
        _ => { let k = src.size(1, 2); T::Wrap(k, Box::new(gen_t(src, depth - 1, next, false))) }
    }
}

fn to_setting(p: &[A], s: Setting, ids: &[(String, Vec<NodeId>)]) -> Setting {
    let mut s = s;
    let mut at = String::new();
    for a in p {
        s = match a {
            A::L => s.left(),
            A::R => s.right(),
            A::I(i) => { let r = s.index(*i); at = format!("{}/{}", at, i); r }
            A::N(i) => {
                let id = ids.iter().find(|x| x.0 == at).map(|x| x.1[*i]).unwrap();
                at = format!("{}/{}", at, i);
                s.node(id)
            }
        };
    }
    s
}

/// Structure of a tree along an address, to tell addresses that name nothing.
fn names_nothing(t: &T, p: &[A]) -> bool {
    match (t, p) {
        (T::Wrap(_, t), _) => names_nothing(t, p),
        (T::G(g), _) => {
            let mut g = g;
            let mut k = 0;
            loop {
                match g {
                    G::Probe { .. } | G::Leaf(_) => return false,
                    G::Pipe(a, b) | G::Stack(a, b) | G::Branch(a, b) | G::Bus(a, b) | G::Sum(a, b) | G::Sub(a, b) | G::Mul(a, b) => {
                        match p.get(k) { Some(A::L) => g = a, Some(A::R) => g = b, _ => return true }
                        k += 1;
                    }
                    G::Thru(a) | G::Neg(a) | G::AddC(a, _) | G::CAdd(_, a) | G::SubC(a, _) | G::CSub(_, a) | G::MulC(a, _) | G::CMul(_, a) => g = a,
                }
            }
        }
        (T::Multi(_, v), [A::I(i), r @ ..]) => *i >= v.len() || names_nothing(&v[*i], r),
        (T::Net(v), [A::N(i), r @ ..]) => names_nothing(&v[*i], r),
        _ => true,
    }
}

fn addressing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut next = 0;
    let mut t = gen_t(src, 3, &mut next, true);
    let listened = t.arity() == (1, 1) && src.bool();
    if listened { t = T::Wrap(0, Box::new(t)); }
    let desc = t.describe();
    let mut ids = vec![];
    let mut senders = vec![];
    let unit = build(&t, &mut ids, "", &mut senders);
    let mut b = Built { unit, senders };
    let mut m = model(&t);
    let (ins, outs) = t.arity();
    let all: Vec<Vec<A>> = paths(&t).into_iter().filter(|p| p.len() <= 4).collect();
    let other = Net::wrap(Box::new(h::pass())).ids().next().copied();
    let mut log = desc.clone();
    let mut hits = 0;
    let rounds = src.size(1, 5);
    let mut pending: Vec<(Vec<A>, u64)> = vec![];
    for _ in 0..rounds {
        let count = if listened && src.chance(1, 20) { src.size(60, 70) } else { src.size(0, 4) };
        let mut accepted = 0;
        for _ in 0..count {
            next += 1;
            let (p, s, real) = match src.below(8) {
                0..=4 if !all.is_empty() => {
                    let p = src.pick(&all).clone();
                    let s = to_setting(&p, Setting::value(next as f32), &ids);
                    (p, s, true)
                }
                5 if !all.is_empty() => {
                    // Another parameter, which probes do not have.
                    let p = src.pick(&all).clone();
                    let s = to_setting(&p, Setting::center_q(next as f32, 1.0), &ids);
                    (p, s, false)
                }
                6 => {
                    // A node of another network.
                    let s = Setting::value(next as f32).node(other.unwrap());
                    (vec![], s, false)
                }
                _ => {
                    // Random turns that name nothing.
                    let n = src.size(0, 4);
                    let p: Vec<A> = (0..n).map(|_| match src.below(3) { 0 => A::L, 1 => A::R, _ => A::I(src.size(0, 9)) }).collect();
                    if !names_nothing(&t, &p) { continue; }
                    let s = to_setting(&p, Setting::value(next as f32), &[]);
                    (p, s, false)
                }
            };
            // A foreign node address sent to a bare leaf is not an address of a structure.
            if !real && p.is_empty() && !names_nothing(&t, &[]) { continue; }
            log.push_str(&format!("; {} {:?} {}", if real { "set" } else { "set-nothing" }, p, next));
            let ok = if listened && src.below(4) > 0 {
                b.senders[b.senders.len() - 1].try_send(s).is_ok()
            } else {
                // Direct settings are applied at once, before anything still waiting in the listener.
                if listened && !pending.is_empty() { continue; }
                b.unit.set(s);
                if real { set_model(&mut m, &p, next); hits += 1; }
                continue;
            };
            if listened {
                ensure!(ok || accepted >= 64, "sender-full", "a setting was refused with {} waiting: {}", accepted, log);
            }
            if ok { accepted += 1; if real { pending.push((p, next)); } else { pending.push((vec![], 0)); } }
        }
        // Nothing has been rendered in between, so everything sent arrives now, in order.
        for (p, id) in pending.drain(..) { if id > 0 { set_model(&mut m, &p, id); hits += 1; } }
        if src.chance(1, 6) {
            // A reset keeps the settings.
            log.push_str("; reset");
            b.unit.reset();
            reset_model(&mut m);
        }
        let n = src.size(1, 90);
        let x = gen_input(src, &vec![Kind::Audio; ins], n);
        let steps = gen_steps(src, n);
        log.push_str(&format!("; play {}", describe_steps(&steps)));
        let got = render(&mut *b.unit, &x, 0, &steps);
        for i in 0..n {
            let v: Vec<f32> = x.iter().map(|c| c[i]).collect();
            let want = step(&mut m, &v);
            for c in 0..outs {
                let tol = 1.0e-5 * (1.0 + want[c].abs());
                ensure!((got[c][i] - want[c]).abs() <= tol || same(got[c][i], want[c]), "addressing", "output {} sample {} is {}, should be {}: {}", c, i, got[c][i], want[c], log);
            }
        }
    }
    ctx.note(&log);
    if hits > 0 { ctx.nontrivial(); }
    if listened { ctx.label("listener"); }
    Ok(())
}
fn reset_model(m: &mut M) {
    match m {
        M::G(e, _) => e.reset(),
        M::Multi(_, v) | M::Net(v) => for t in v { reset_model(t) },
        M::Wrap(t) => reset_model(t),
    }
}

struct Par { name: &'static str, n: usize, make: fn(&[f32]) -> Un, set: fn(&[f32]) -> Setting, var: Option<fn() -> Un>, kinds: fn() -> Vec<Kind>, gen: &'static [u8], after_reset: bool }
macro_rules! par {
    ($name:expr, $gen:expr, $make:expr, $set:expr, $var:expr) => { Par { name: $name, n: $gen.len(), make: $make, set: $set, var: $var, kinds: || vec![Kind::Audio], gen: $gen, after_reset: false } };
}
const HZ: u8 = 0; const Q: u8 = 1; const GA: u8 = 2; const UN: u8 = 3; const D: u8 = 4; const BI: u8 = 5; const T0: u8 = 6;

fn pars() -> Vec<Par> {
    let mut v: Vec<Par> = vec![];
    macro_rules! f3 { ($name:expr, $hz:path, $v:path) => { v.push(par!($name, &[HZ, Q, GA], |p| Box::new($hz(p[0], p[1], p[2])), |p| Setting::center_q_gain(p[0], p[1], p[2]), Some(|| Box::new($v())))) } }
    macro_rules! f2 { ($name:expr, $hz:path, $v:path) => { v.push(par!($name, &[HZ, Q], |p| Box::new($hz(p[0], p[1])), |p| Setting::center_q(p[0], p[1]), Some(|| Box::new($v())))) } }
    macro_rules! s3 { ($name:expr, $hz:path, $v:path) => { v.push(par!($name, &[HZ, Q, GA], |p| Box::new($hz(Tanh(0.7), p[0], p[1], p[2])), |p| Setting::center_q_gain(p[0], p[1], p[2]), Some(|| Box::new($v(Tanh(0.7)))))) } }
    macro_rules! s2 { ($name:expr, $hz:path, $v:path) => { v.push(par!($name, &[HZ, Q], |p| Box::new($hz(Tanh(0.7), p[0], p[1])), |p| Setting::center_q(p[0], p[1]), Some(|| Box::new($v(Tanh(0.7)))))) } }
    macro_rules! f1 { ($name:expr, $hz:path, $v:path) => { v.push(par!($name, &[HZ], |p| Box::new($hz(p[0])), |p| Setting::center(p[0]), Some(|| Box::new($v())))) } }
    f3!("bell_hz", h::bell_hz, h::bell); f3!("lowshelf_hz", h::lowshelf_hz, h::lowshelf); f3!("highshelf_hz", h::highshelf_hz, h::highshelf);
    f2!("lowpass_hz", h::lowpass_hz, h::lowpass); f2!("highpass_hz", h::highpass_hz, h::highpass); f2!("bandpass_hz", h::bandpass_hz, h::bandpass);
    f2!("notch_hz", h::notch_hz, h::notch); f2!("peak_hz", h::peak_hz, h::peak); f2!("allpass_hz", h::allpass_hz, h::allpass);
    s3!("dbell_hz", h::dbell_hz, h::dbell); s3!("fbell_hz", h::fbell_hz, h::fbell);
    s2!("dlowpass_hz", h::dlowpass_hz, h::dlowpass); s2!("flowpass_hz", h::flowpass_hz, h::flowpass); s2!("dhighpass_hz", h::dhighpass_hz, h::dhighpass); s2!("fhighpass_hz", h::fhighpass_hz, h::fhighpass);
    s2!("dresonator_hz", h::dresonator_hz, h::dresonator); s2!("fresonator_hz", h::fresonator_hz, h::fresonator);
    f2!("resonator_hz", h::resonator_hz, h::resonator);
    f2!("lowrez_hz", h::lowrez_hz, h::lowrez); f2!("bandrez_hz", h::bandrez_hz, h::bandrez);
    f1!("butterpass_hz", h::butterpass_hz, h::butterpass); f1!("lowpole_hz", h::lowpole_hz, h::lowpole); f1!("highpole_hz", h::highpole_hz, h::highpole);
    v.push(par!("moog_hz", &[HZ, UN], |p| Box::new(h::moog_hz(p[0], p[1] * 0.8)), |p| Setting::center_q(p[0], p[1] * 0.8), None));
    v.push(par!("dcblock_hz", &[HZ], |p| Box::new(h::dcblock_hz(p[0] * 0.1)), |p| Setting::center(p[0] * 0.1), None));
    v.push(par!("allpole_delay", &[D], |p| Box::new(h::allpole_delay(p[0])), |p| Setting::delay(p[0]), Some(|| Box::new(h::allpole()))));
    v.push(par!("pan", &[UN], |p| Box::new(h::pan(p[0] * 2.0 - 1.0)), |p| Setting::pan(p[0] * 2.0 - 1.0), None));
    v.push(par!("biquad", &[BI], |p| { let c = BiquadCoefs::<f32>::lowpass(44100.0, p[0], 1.0); Box::new(h::biquad(c.a1, c.a2, c.b0, c.b1, c.b2)) }, |p| { let c = BiquadCoefs::<f32>::lowpass(44100.0, p[0], 1.0); Setting::biquad(c.a1, c.a2, c.b0, c.b1, c.b2) }, None));
    v.push(par!("follow", &[T0], |p| Box::new(h::follow(p[0])), |p| Setting::time(p[0]), None));
    v.push(par!("afollow", &[T0, T0], |p| Box::new(h::afollow(p[0], p[1])), |p| Setting::attack_release(p[0], p[1]), None));
    macro_rules! gen0 { ($name:expr, $kinds:expr, $g:expr, $make:expr, $set:expr, $var:expr, $r:expr) => { v.push(Par { name: $name, n: $g.len(), make: $make, set: $set, var: $var, kinds: || $kinds, gen: $g, after_reset: $r }) } }
    let _ = &v;
    gen0!("dc", vec![], &[UN], |p| Box::new(h::dc(p[0])), |p| Setting::value(p[0]), None, false);
    gen0!("dsf_saw_r", vec![Kind::Log(20.0, 5000.0)], &[UN], |p| Box::new(h::dsf_saw_r(p[0] * 0.9)), |p| Setting::roughness(p[0] * 0.9), Some(|| Box::new(h::pass() | h::mul(0.9)  >> h::pass())), false);
    gen0!("dsf_square_r", vec![Kind::Log(20.0, 5000.0)], &[UN], |p| Box::new(h::dsf_square_r(p[0] * 0.9)), |p| Setting::roughness(p[0] * 0.9), None, false);
    gen0!("hold", vec![Kind::Audio, Kind::Log(50.0, 5000.0)], &[UN], |p| Box::new(h::hold(p[0])), |p| Setting::variability(p[0]), None, true);
    gen0!("sine phase", vec![Kind::Log(20.0, 5000.0)], &[UN], |p| Box::new(h::sine().phase(p[0])), |p| Setting::phase(p[0]), None, true);
    gen0!("ramp phase", vec![Kind::Log(20.0, 5000.0)], &[UN], |p| Box::new(h::ramp().phase(p[0])), |p| Setting::phase(p[0]), None, true);
    gen0!("noise seed", vec![], &[UN], |p| Box::new(h::noise().seed((p[0] * 1024.0) as u64)), |p| Setting::seed((p[0] * 1024.0) as u64), None, true);
    gen0!("mls seed", vec![], &[UN], |p| Box::new(h::mls().seed((p[0] * 1024.0) as u64)), |p| Setting::seed((p[0] * 1024.0) as u64), None, true);
    for x in v.iter_mut() { if x.name.starts_with("dsf") { x.var = None; } }
    v
}

fn gen_p(src: &mut Src, k: u8) -> f32 {
    match k { HZ => src.logf32(50.0, 9000.0), Q => src.logf32(0.3, 5.0), GA => src.logf32(0.25, 4.0), UN => src.below(1025) as f32 / 1024.0, D => src.f32(0.2, 2.0), BI => src.logf32(200.0, 9000.0), _ => src.logf32(0.001, 0.1) }
}

fn parameters(src: &mut Src, ctx: &mut Ctx) -> Res {
    static PARS: std::sync::OnceLock<Vec<Par>> = std::sync::OnceLock::new();
    let q = src.pick(PARS.get_or_init(pars));
    let p0: Vec<f32> = q.gen.iter().map(|k| gen_p(src, *k)).collect();
    let p1: Vec<f32> = q.gen.iter().map(|k| gen_p(src, *k)).collect();
    let sr = *src.pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let kinds = (q.kinds)();
    let desc = format!("{} from {:?} to {:?} at {}", q.name, p0, p1, sr);
    ctx.note(&desc);
    ctx.nontrivial();
    let n = src.size(2, 120);
    let x = gen_input(src, &kinds, n);
    let steps = gen_steps(src, n);
    let cmp = |what: &str, a: &Sig, b: &Sig, tol: f64| -> Res {
        let s = 1.0 + peak(a).max(peak(b));
        match diff(a, b, tol * s) {
            None => Ok(()),
            Some((c, i, u, v)) => fail(format!("{} {}", q.name, what), format!("{}: {}: output {} sample {} is {}, should be {}", desc, what, c, i, v, u)),
        }
    };
    // 1. Set before playing equals constructed, in any order with the sample rate, on a new or replayed unit.
    let mut want = (q.make)(&p1);
    want.set_sample_rate(sr);
    let mut u = (q.make)(&p0);
    let rate_first = src.bool();
    if rate_first { u.set_sample_rate(sr); }
    if src.bool() {
        let m = src.size(1, 40);
        let y = gen_input(src, &kinds, m);
        let st = gen_steps(src, m);
        render(&mut *u, &y, 0, &st);
        u.set((q.set)(&p1));
        u.reset();
    } else {
        u.set((q.set)(&p1));
        if q.after_reset || src.bool() { u.reset(); }
    }
    if !rate_first { u.set_sample_rate(sr); if q.after_reset { u.reset(); want.reset(); } }
    let a = render(&mut *want, &x, 0, &steps);
    let b = render(&mut *u, &x, 0, &steps);
    cmp("set before playing", &a, &b, 1.0e-6)?;
    // 2. Setting the current parameters, or ones the unit does not have, while playing changes nothing.
    let k = src.size(1, n - 1);
    let mut u = (q.make)(&p1);
    u.set_sample_rate(sr);
    let s1 = gen_steps(src, k);
    let s2 = gen_steps(src, n - k);
    let mut c = render(&mut *u, &x, 0, &s1);
    u.set((q.set)(&p1));
    u.set(Setting::interval(0.3));
    u.set(Setting::subsample(7));
    if q.name != "dc" { u.set(Setting::value(3.0)); }
    if q.name != "pan" { u.set(Setting::pan(0.3)); }
    if q.name != "follow" { u.set(Setting::time(0.3)); }
    if q.name != "biquad" { u.set(Setting::biquad(0.1, 0.1, 0.1, 0.1, 0.1)); }
    if q.name != "allpole_delay" { u.set(Setting::delay(0.3)); }
    let d = render(&mut *u, &x, k, &s2);
    for (i, ch) in d.into_iter().enumerate() { c[i].extend(ch); }
    cmp("setting current parameters", &a, &c, 1.0e-4)?;
    // 3. While playing: the same as the form that takes the parameters as inputs.
    if let Some(var) = q.var {
        let mut v = var();
        v.set_sample_rate(sr);
        let mut y = x.clone();
        for j in 0..q.n { y.push((0..n).map(|i| if i < k { p0[j] } else { p1[j] }).collect()); }
        // Block processing of parameter inputs may change them for a whole block at once: play by sample.
        let want = render(&mut *v, &y, 0, &all_ticks(n));
        let mut u = (q.make)(&p0);
        u.set_sample_rate(sr);
        let mut c = render(&mut *u, &x, 0, &s1);
        u.set((q.set)(&p1));
        let d = render(&mut *u, &x, k, &s2);
        for (i, ch) in d.into_iter().enumerate() { c[i].extend(ch); }
        cmp("set while playing", &want, &c, 1.0e-4)?;
        ctx.label("while playing");
    }
    // 4. Partial settings: center (and Q) only.
    if q.gen[0] == HZ && q.n >= 2 {
        let (s, want) = if q.n == 3 && src.bool() { (Setting::center_q(p1[0], p1[1]), vec![p1[0], p1[1], p0[2]]) } else { let mut w = p0.clone(); w[0] = p1[0]; (Setting::center(p1[0]), w) };
        let mut r = (q.make)(&want);
        r.set_sample_rate(sr);
        let mut u = (q.make)(&p0);
        u.set_sample_rate(sr);
        u.set(s);
        let a = render(&mut *r, &x, 0, &steps);
        let b = render(&mut *u, &x, 0, &steps);
        cmp("partial setting", &a, &b, 1.0e-5)?;
    }
    Ok(())
}

/// Biquad banks: exactly the addressed channel changes.
fn bank(src: &mut Src, ctx: &mut Ctx) -> Res {
    let wide = src.bool();
    let n = if wide { 8 } else { 4 };
    let mut u: Un = if wide { Box::new(fundsp::hacker32::biquad_bank()) } else { Box::new(h::biquad_bank()) };
    let mut coefs = vec![BiquadCoefs::<f32>::default(); n];
    let m = src.size(0, 12);
    let mut log = format!("bank of {}", n);
    for _ in 0..m {
        let i = src.size(0, n + 2);
        let c = BiquadCoefs::<f32>::lowpass(44100.0, src.logf32(200.0, 9000.0), 1.0);
        log.push_str(&format!("; set {} {:?}", i, c.b0));
        u.set(Setting::biquad(c.a1, c.a2, c.b0, c.b1, c.b2).index(i));
        if i < n { coefs[i] = c; }
    }
    u.set(Setting::biquad(0.5, 0.5, 0.5, 0.5, 0.5));
    u.set(Setting::center(100.0).index(0));
    ctx.note(&log);
    if m > 0 { ctx.nontrivial(); }
    let len = src.size(1, 80);
    let x = gen_input(src, &vec![Kind::Audio; n], len);
    let st = gen_steps(src, len);
    let got = render(&mut *u, &x, 0, &st);
    for c in 0..n {
        let k = coefs[c];
        let mut r: Un = Box::new(h::biquad(k.a1, k.a2, k.b0, k.b1, k.b2));
        let want = render(&mut *r, &vec![x[c].clone()], 0, &all_ticks(len));
        for i in 0..len {
            ensure!((want[0][i] - got[c][i]).abs() <= 2.0e-3, "bank", "{}: channel {} sample {} is {}, should be {}", log, c, i, got[c][i], want[0][i]);
        }
    }
    Ok(())
}

/// Components reached through the accessors of a composite, and parameters set through methods: the composite is then the one
/// that would have been built with the new component.
fn access(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v: Vec<f32> = (0..8).map(|_| (src.below(65) as f32 - 32.0) / 16.0).collect();
    let w = (src.below(65) as f32 - 32.0) / 16.0 + 0.03125;
    let k = src.size(0, 3);
    let left = src.bool();
    let f = |x: f32| h::fir(x);
    let fr = |x: f32| -> Frame<f32, U1> { [x].into() };
    let (a, b) = (v[0], v[1]);
    let (a2, b2) = if left { (w, b) } else { (a, w) };
    let vi = |i: u64| v[i as usize];
    let wi = |i: u64| if i as usize == k { w } else { v[i as usize] };
    let hz = src.logf32(50.0, 9000.0);
    let hz0 = src.logf32(50.0, 9000.0);
    let q = src.logf32(0.3, 5.0);
    let pick = src.below(39);
    let how = src.below(5);
    let gain = src.logf32(0.3, 3.0);
    ctx.note(format!("access {} left {} index {} values {:?} new {} hz {} from {} q {}", pick, left, k, v, w, hz, hz0, q));
    ctx.nontrivial();
    macro_rules! two { ($op:tt, $mk:expr, $set:ident, $arg:expr, $get:expr) => {{
        let mk = $mk;
        let mut x = mk(a) $op mk(b);
        if left { x.left_mut().$set($arg); } else { x.right_mut().$set($arg); }
        let g = $get;
        ensure!(g(x.left()) == a2 && g(x.right()) == b2, "access read", "{} and {} instead of {} and {}", g(x.left()), g(x.right()), a2, b2);
        let y = mk(a2) $op mk(b2);
        (Box::new(x) as Un, Box::new(y) as Un)
    }} }
    macro_rules! many { ($make:expr) => {{
        let mut x = ($make)(&vi as &dyn Fn(u64) -> f32);
        x.node_mut(k).set_weights(w);
        for i in 0..4 { ensure!(x.node(i).weights()[0] == wi(i as u64), "access read", "weight {} is {}", i, x.node(i).weights()[0]); }
        let y = ($make)(&wi as &dyn Fn(u64) -> f32);
        (Box::new(x) as Un, Box::new(y) as Un)
    }} }
    macro_rules! method { ($x:expr, $y:expr, |$u:ident| $e:expr) => {{ let mut $u = $x; $e; let x = $u; (Box::new(x) as Un, Box::new($y) as Un) }} }
    let fw = |n: &h::Fir<U1>| n.weights()[0];
    let dv = |n: &h::Constant<U1>| n.value()[0];
    let (mut x, mut y): (Un, Un) = match pick {
        0 => two!(+, |x: f32| h::dc(x), set_value, fr(w), dv),
        1 => two!(-, |x: f32| h::dc(x), set_value, fr(w), dv),
        2 => two!(*, |x: f32| h::dc(x), set_value, fr(w), dv),
        3 => two!(>>, f, set_weights, w, fw),
        4 => two!(|, f, set_weights, w, fw),
        5 => two!(^, f, set_weights, w, fw),
        6 => two!(&, f, set_weights, w, fw),
        7 => two!(+, f, set_weights, w, fw),
        8 => many!(|g: &dyn Fn(u64) -> f32| h::busi::<U4, _, _>(|i| h::fir(g(i)))),
        9 => many!(|g: &dyn Fn(u64) -> f32| h::stacki::<U4, _, _>(|i| h::fir(g(i)))),
        10 => many!(|g: &dyn Fn(u64) -> f32| h::branchi::<U4, _, _>(|i| h::fir(g(i)))),
        11 => many!(|g: &dyn Fn(u64) -> f32| h::pipei::<U4, _, _>(|i| h::fir(g(i)))),
        12 => many!(|g: &dyn Fn(u64) -> f32| h::sumi::<U4, _, _>(|i| h::fir(g(i)))),
        13 => method!(h::oversample(f(a)), h::oversample(f(w)), |u| { ensure!(u.node().weights()[0] == a, "access read", "oversampler"); u.node_mut().set_weights(w) }),
        14 => method!(h::resample(h::dc(a)), h::resample(h::dc(w)), |u| { ensure!(u.node().value()[0] == a, "access read", "resampler"); u.node_mut().set_value(fr(w)) }),
        15 => {
            let build = |x: f32, y: f32| { let mut n = Net::new(0, 2); let i = n.push(Box::new(h::dc(x))); let j = n.push(Box::new(h::dc(y))); n.connect_output(i, 0, 0); n.connect_output(j, 0, 1); (n, i, j) };
            let (mut n, i, j) = build(a, b);
            n.node_mut(if left { i } else { j }).set(Setting::value(w));
            (Box::new(n), Box::new(build(a2, b2).0))
        }
        16 => method!(h::fir((a, b, v[2])), h::fir((v[3], w, v[4])), |u| { ensure!(u.weights().as_slice() == [a, b, v[2]], "access read", "fir"); u.set_weights((v[3], w, v[4])) }),
        17 => method!(h::dc((a, b)), h::dc((w, a)), |u| { ensure!(u.value().as_slice() == [a, b], "access read", "dc"); u.set_value([w, a].into()) }),
        18 => { let c = BiquadCoefs::<f64>::lowpass(44100.0, hz as f64, q as f64); method!(An(h::Biquad::<f64>::with_coefs(BiquadCoefs::lowpass(44100.0, hz0 as f64, 1.0))), An(h::Biquad::<f64>::with_coefs(c)), |u| { u.set_coefs(c); ensure!(u.coefs().b0 == c.b0 && u.coefs().a1 == c.a1 && u.coefs().a2 == c.a2 && u.coefs().b1 == c.b1 && u.coefs().b2 == c.b2, "access read", "biquad"); }) }
        19 => { let c = BiquadCoefs::<f32>::highpass(44100.0, hz, q); method!(h::biquad(0.0, 0.0, 1.0, 0.0, 0.0), h::biquad(c.a1 as f64 as f32, c.a2, c.b0, c.b1, c.b2), |u| u.set(Setting::biquad(c.a1, c.a2, c.b0, c.b1, c.b2))) }
        20 => method!(h::lowpole_hz(hz0), h::lowpole_hz(hz), |u| u.set_cutoff(hz as f64)),
        21 => method!(h::highpole_hz(hz0), h::highpole_hz(hz), |u| u.set_cutoff(hz as f64)),
        22 => method!(h::dcblock_hz(hz0), h::dcblock_hz(hz), |u| u.set_cutoff(hz as f64)),
        23 => method!(h::allpole_delay(0.3), h::allpole_delay(q), |u| u.set_delay(q as f64)),
        24 => method!(h::lowrez_hz(hz0 * 0.3, 0.1), h::lowrez_hz(hz * 0.3, q * 0.15), |u| u.set_cutoff_q(hz as f64 * 0.3f32 as f64, (q * 0.15) as f64)),
        25 => method!(h::pan(a), h::pan(w), |u| u.set_pan(w)),
        26 => method!(h::dsf_saw_r(0.3), h::dsf_saw_r(0.5 * q / 5.0), |u| { u.set_roughness(0.5 * q / 5.0); ensure!(u.roughness() == 0.5 * q / 5.0, "access read", "roughness {}", u.roughness()); }),
        27 => method!(h::hold(0.2), h::hold(q / 5.0), |u| { u.set_variability(q / 5.0); ensure!(u.variability() == q / 5.0, "access read", "variability {}", u.variability()); }),
        28 => method!(h::allnest_c(0.1, h::tick()), h::allnest_c(w / 4.0, h::tick()), |u| u.set_coefficient(w / 4.0)),
        29 => method!(h::moog_hz(hz0 * 0.5, 0.1), h::moog_hz(hz * 0.5, q / 10.0), |u| u.set_cutoff_q((hz * 0.5) as f64, (q / 10.0) as f64)),
        30 => {
            let p = h::SvfParams { sample_rate: 48000.0f64, cutoff: hz as f64, q: q as f64, gain: 1.0 + a.abs() as f64 };
            let x = h::Svf::new(h::BellMode::default(), &p);
            ensure!(x.sample_rate() == p.sample_rate && x.cutoff() == p.cutoff && x.center() == p.cutoff && x.q() == p.q && x.gain() == p.gain, "access read", "svf parameters");
            let x = h::FixedSvf::new(h::BellMode::new(), &p);
            ensure!(x.sample_rate() == p.sample_rate && x.cutoff() == p.cutoff && x.center() == p.cutoff && x.q() == p.q && x.gain() == p.gain, "access read", "svf parameters");
            return Ok(());
        }
        31 => {
            let x = fundsp::biquad_bank::BiquadBank::<fundsp::F32x>::with_coefs(BiquadCoefs { a1: [0.1; 8].into(), a2: [0.2; 8].into(), b0: fundsp::F32x::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]), b1: [0.3; 8].into(), b2: [0.1; 8].into() });
            let mut y: Option<Un> = None;
            for i in 0..8 { let b: Un = Box::new(h::biquad(0.1, 0.2, v[i], 0.3, 0.1)); y = Some(match y { None => b, Some(z) => Box::new(Net::wrap(z) | Net::wrap(b)) }); }
            let (mut x, mut y): (Un, Un) = (Box::new(An(x)), y.unwrap());
            let n = src.size(1, 30);
            let input = gen_input(src, &vec![Kind::Audio; 8], n);
            let (p, q) = (render(&mut *x, &input, 0, &all_ticks(n)), render(&mut *y, &input, 0, &all_ticks(n)));
            for c in 0..8 { for i in 0..n { ensure!((p[c][i] - q[c][i]).abs() <= 1.0e-4, "access bank", "channel {} sample {}: {} instead of {}", c, i, p[c][i], q[c][i]); } }
            return Ok(());
        }
        32 => method!(h::butterpass_hz(hz0), h::butterpass_hz(hz), |u| u.set_cutoff(hz as f64)),
        33 => method!(h::resonator_hz(hz0, 1.0), h::resonator_hz(hz, q), |u| u.set_center_q(hz as f64, q as f64)),
        34..=37 => {
            let (hz1, q1, g1) = match how { 0 => (hz, 1.0, 2.0), 1 => (hz0, q, 2.0), 2 => (hz0, 1.0, gain), 3 => (hz, q, 2.0), _ => (hz, q, gain) };
            macro_rules! one { ($u:ident) => { match how {
                0 => $u.set_center(hz as f64),
                1 => $u.set_q(q as f64),
                2 => $u.set_gain(gain as f64),
                3 => $u.set_center_q(hz as f64, q as f64),
                _ => $u.set_center_q_gain(hz as f64, q as f64, gain as f64),
            } } }
            match pick {
                34 => method!(h::fbell_hz(h::Tanh(0.9), hz0, 1.0, 2.0), h::fbell_hz(h::Tanh(0.9), hz1, q1, g1), |u| one!(u)),
                35 => method!(h::dbell_hz(h::Tanh(0.9), hz0, 1.0, 2.0), h::dbell_hz(h::Tanh(0.9), hz1, q1, g1), |u| one!(u)),
                36 => method!(h::flowpass_hz(h::Softsign(0.9), hz0, 1.0), h::flowpass_hz(h::Softsign(0.9), hz1, q1), |u| one!(u)),
                _ => method!(h::dhighpass_hz(h::Softsign(0.9), hz0, 1.0), h::dhighpass_hz(h::Softsign(0.9), hz1, q1), |u| one!(u)),
            }
        }
        _ => {
            // A product of components with indexed access.
            let mut x = h::sumi::<U2, _, _>(|i| h::fir((v[i as usize], v[2])));
            x.node_mut(k & 1).set_weights((w, v[3]));
            let y = h::sumi::<U2, _, _>(|i| if i as usize == k & 1 { h::fir((w, v[3])) } else { h::fir((v[i as usize], v[2])) });
            (Box::new(x), Box::new(y))
        }
    };
    let n = src.size(1, 100);
    let kinds: Vec<Kind> = match pick { 14 => vec![Kind::Range(0.5, 2.0)], 26 => vec![Kind::Log(20.0, 5000.0)], 27 => vec![Kind::Audio, Kind::Log(50.0, 5000.0)], _ => vec![Kind::Audio; x.inputs()] };
    let input = gen_input(src, &kinds, n);
    let st = gen_steps(src, n);
    if src.bool() { let sr = *src.pick(&[44100.0, 48000.0, 96000.0]); if pick != 18 && pick != 19 { x.set_sample_rate(sr); y.set_sample_rate(sr); } }
    if pick == 27 { x.reset(); y.reset(); }
    let (p, q) = (render(&mut *x, &input, 0, &st), render(&mut *y, &input, 0, &st));
    for c in 0..p.len() { for i in 0..n { ensure!((p[c][i] - q[c][i]).abs() <= 1.0e-5 * (1.0 + q[c][i].abs()), "access", "channel {} sample {} is {} instead of {}", c, i, p[c][i], q[c][i]); } }
    Ok(())
}

/// Senders on other threads: everything accepted arrives exactly once and in order per sender.
fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let count = src.size(1, 400);
    let clones = src.size(1, 3);
    ctx.note(format!("{} settings by each of {} threads", count, clones));
    ctx.nontrivial();
    #[derive(Clone)]
    struct Log(std::sync::Arc<std::sync::Mutex<Vec<f32>>>);
    impl AudioNode for Log {
        const ID: u64 = 9100;
        type Inputs = U0;
        type Outputs = U1;
        fn tick(&mut self, _: &Frame<f32, U0>) -> Frame<f32, U1> { [0.0].into() }
        fn set(&mut self, s: Setting) { if let Parameter::Value(v) = s.parameter() { self.0.lock().unwrap().push(*v); } }
    }
    let log = Log(Default::default());
    let (sender, mut node) = h::listen(An(log.clone()));
    let mut sent: Vec<Vec<f32>> = vec![];
    std::thread::scope(|sc| {
        let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut hs = vec![];
        for t in 0..clones {
            let s = sender.clone();
            let done = done.clone();
            hs.push(sc.spawn(move || {
                let mut ok = vec![];
                for i in 0..count {
                    let v = (t * 1000 + i) as f32;
                    if s.try_send(Setting::value(v)).is_ok() { ok.push(v); } else { std::thread::yield_now(); }
                }
                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                ok
            }));
        }
        while done.load(std::sync::atomic::Ordering::SeqCst) < clones { node.get_mono(); std::thread::yield_now(); }
        for h in hs { sent.push(h.join().unwrap()); }
        node.get_mono();
    });
    let got = log.0.lock().unwrap().clone();
    for t in 0..clones {
        let mine: Vec<f32> = got.iter().copied().filter(|v| *v as usize / 1000 == t).collect();
        ensure!(mine == sent[t], "threads", "thread {} sent {} settings, {} arrived or out of order", t, sent[t].len(), mine.len());
    }
    Ok(())
}

fn main() {
    let _ = nodes::catalogue();
    main_check(Check {
        id: "C13",
        rule: "addressing: a nested structure of probes and a history of settings, resets and rendered stretches; non-trivial when at least one setting named a probe. parameters: every settable opcode, before and while playing. bank: biquad bank channels. threads: senders on other threads",
        assumptions: &["addresses have at most four levels", "phase, seed and variability settings take effect at the next reset, as documented"],
        subs: vec![
            Sub { name: "addressing", quick: 120000, thorough: 20000000, f: addressing },
            Sub { name: "parameters", quick: 100000, thorough: 10000000, f: parameters },
            Sub { name: "access", quick: 60000, thorough: 3000000, f: access },
            Sub { name: "bank", quick: 30000, thorough: 1000000, f: bank },
            Sub { name: "threads", quick: 100, thorough: 5000, f: threads },
        ],
    })
}
