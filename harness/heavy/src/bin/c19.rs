//! C19: no allocation or deallocation while rendering.
use fundsp::hacker as h;
use fundsp::hacker::{unit, An, AudioNode, AudioUnit, BigBlockAdapter, BlockRateAdapter, BufferVec, Fade, Frame, Net, NodeId, Sequencer, Setting, Slot, U0, U1, U2, U3, U4};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vfcore::kind::Kind;
use vfcore::render::{describe_steps, gen_input, gen_steps, Sig, Step};
use vfcore::*;
use vfnodes as nodes;

type Un = Box<dyn AudioUnit>;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<usize> = const { Cell::new(0) };
    static FREES: Cell<usize> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(&ALLOCS); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count(&FREES); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(&ALLOCS); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(&ALLOCS); System.realloc(p, l, n) }
}
fn count(c: &'static std::thread::LocalKey<Cell<usize>>) {
    let on = ON.try_with(|o| o.get()).unwrap_or(false);
    if on { let _ = c.try_with(|c| c.set(c.get() + 1)); }
}
#[global_allocator]
static A: Counting = Counting;

struct Guard;
impl Guard { fn new() -> Guard { ON.with(|o| o.set(true)); Guard } }
impl Drop for Guard { fn drop(&mut self) { ON.with(|o| o.set(false)); } }

/// Renders with the counter on around each call and returns (allocations, deallocations, sample of the first).
struct Meter { ib: BufferVec, ob: BufferVec, ti: Vec<f32>, to: Vec<f32> }
impl Meter {
    fn new(ins: usize, outs: usize) -> Meter { Meter { ib: BufferVec::new(ins), ob: BufferVec::new(outs), ti: vec![0.0; ins], to: vec![0.0; outs] } }
    fn play(&mut self, u: &mut dyn AudioUnit, x: &Sig, from: usize, steps: &[Step]) -> Option<(usize, usize, usize, Step)> {
        let ins = self.ti.len();
        let mut pos = from;
        for s in steps {
            match s {
                Step::Tick(n) => for _ in 0..*n {
                    for c in 0..ins { self.ti[c] = x[c][pos]; }
                    ALLOCS.with(|c| c.set(0));
                    FREES.with(|c| c.set(0));
                    { let _g = Guard::new(); u.tick(&self.ti, &mut self.to); }
                    let (a, f) = (ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()));
                    if a + f > 0 { return Some((a, f, pos, Step::Tick(1))); }
                    pos += 1;
                },
                Step::Block(n) => {
                    for c in 0..ins { for i in 0..*n { self.ib.set_f32(c, i, x[c][pos + i]); } }
                    ALLOCS.with(|c| c.set(0));
                    FREES.with(|c| c.set(0));
                    { let i = self.ib.buffer_ref(); let mut o = self.ob.buffer_mut(); let _g = Guard::new(); u.process(*n, &i, &mut o); }
                    let (a, f) = (ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()));
                    if a + f > 0 { return Some((a, f, pos, Step::Block(*n))); }
                    pos += n;
                }
            }
        }
        None
    }
}
fn verdict(r: Option<(usize, usize, usize, Step)>, sig: impl Into<String>, log: &str) -> Res {
    match r {
        None => Ok(()),
        Some((a, f, pos, s)) => fail(sig, format!("{} allocations and {} deallocations in {} at sample {}: {}", a, f, describe_steps(&[s]), pos, log)),
    }
}

const RATES: &[f64] = &[44100.0, 48000.0, 22050.0, 96000.0, 192000.0, 8000.0];

fn prepare_and_play(src: &mut Src, u: &mut Un, kinds: &[Kind], log: &mut String, sig: &str) -> Res {
    let mut m = Meter::new(u.inputs(), u.outputs());
    let lives = src.size(1, 3);
    for _ in 0..lives {
        let sr = *src.pick(RATES);
        let order = src.below(3);
        u.set_sample_rate(sr);
        if order == 1 { u.reset(); }
        u.allocate();
        if order == 2 { u.reset(); }
        let n = if src.chance(1, 6) { src.size(200, 3000) } else { src.size(1, 300) };
        let x = gen_input(src, kinds, n);
        let st = gen_steps(src, n);
        log.push_str(&format!("; rate {} allocate play {}", sr, describe_steps(&st)));
        verdict(m.play(&mut **u, &x, 0, &st), sig, log)?;
        if src.bool() {
            // A reset needs no new preparation.
            u.reset();
            log.push_str(" reset play");
            verdict(m.play(&mut **u, &x, 0, &st), sig, log)?;
        }
    }
    Ok(())
}

fn units(src: &mut Src, ctx: &mut Ctx) -> Res {
    vfcore::probe::set_provider(nodes::provider());
    let graph = src.chance(1, 4);
    let (mut u, kinds, mut log, name) = if graph {
        let (ins, outs) = (src.size(0, 3), src.size(1, 3));
        let mut next = 0;
        let g = vfgraph::gen(src, ins, outs, 3, vfgraph::Leaves::Catalogue, &mut next);
        let d = g.describe();
        if d.contains("granular") { return Ok(()); }
        let u = if src.bool() { vfgraph::build(&g) } else { Box::new(vfgraph::build_net(&g, src)) };
        (u, vec![Kind::Audio; ins], d, "graph".to_string())
    } else {
        let s = nodes::gen_spec(src);
        if s.name.contains("granular") { return Ok(()); }
        let l = nodes::build(&s);
        (l.unit, l.ins, s.describe(), s.name.to_string())
    };
    ctx.nontrivial();
    let r = prepare_and_play(src, &mut u, &kinds, &mut log, &format!("unit {}", name));
    ctx.note(&log);
    r
}

/// A unit that allocates on its first sample unless it has been told to allocate in advance.
#[derive(Clone)]
struct Lazy { v: Vec<f32>, rate: f64 }
impl AudioNode for Lazy {
    const ID: u64 = 9200;
    type Inputs = U1;
    type Outputs = U1;
    fn reset(&mut self) { self.v.clear(); }
    fn set_sample_rate(&mut self, r: f64) { if r != self.rate { self.rate = r; self.v = Vec::new(); } }
    fn tick(&mut self, x: &Frame<f32, U1>) -> Frame<f32, U1> { if self.v.len() < 40 { self.v.push(x[0]); } [x[0] * 0.5].into() }
    fn allocate(&mut self) { if self.v.capacity() < 40 { self.v.reserve(40 - self.v.len()); } }
}

/// Everything that contains units: one input and one output each.
fn wrap(src: &mut Src, depth: usize, log: &mut String) -> Un {
    if depth == 0 || src.chance(1, 6) {
        log.push_str("lazy");
        return match src.below(3) {
            0 => Box::new(An(Lazy { v: Vec::new(), rate: 0.0 })),
            1 => Box::new(h::limiter(0.01, 0.01)),
            _ => { let mut l = Lazy { v: Vec::new(), rate: 0.0 }; l.v.push(0.0); Box::new(An(l.clone())) }
        };
    }
    let k = src.below(34);
    log.push_str(&format!("w{}(", k));
    let a = unit::<U1, U1>(wrap(src, depth - 1, log));
    let b = if (7..18).contains(&k) { log.push_str(", "); unit::<U1, U1>(wrap(src, depth - 1, log)) } else { unit::<U1, U1>(Box::new(h::pass())) };
    log.push(')');
    use fundsp::prelude as p;
    match k {
        0 => Box::new(-a),
        1 => Box::new(a * 2.0),
        2 => Box::new(1.0 + a),
        3 => Box::new(!a),
        4 => Box::new(p::feedback(a * 0.5)),
        5 => Box::new(h::listen(a).1),
        6 => Box::new(h::update(a, 0.01, |_, _, _| ())),
        7 => Box::new(a >> b),
        8 => Box::new(h::split::<U2>() >> (a | b) >> h::join::<U2>()),
        9 => Box::new((a ^ b) >> h::join::<U2>()),
        10 => Box::new(a & b),
        11 => Box::new(h::split::<U2>() >> (a + b)),
        12 => Box::new(h::split::<U2>() >> (a - b)),
        13 => Box::new(h::split::<U2>() >> (a * b)),
        14 => Box::new(p::feedback2(a * 0.5, b * 0.5)),
        15 => Box::new(h::split::<U2>() >> h::fdn::<U2, _>((a * 0.5) | (b * 0.5)) >> h::join::<U2>()),
        16 => Box::new(h::split::<U2>() >> h::fdn2::<U2, _, _>((a * 0.5) | (b * 0.5), h::pass() | h::pass()) >> h::join::<U2>()),
        17 => { let mut net = Net::new(1, 1); let i = net.push(Box::new(a)); let j = net.push(Box::new(b)); net.pipe_input(i); net.pipe_all(i, j); net.pipe_output(j); Box::new(net) }
        18 => Box::new(h::oversample(a)),
        19 => Box::new(h::allnest_c(0.5, a)),
        20 => Box::new(h::busi::<U3, _, _>(move |_| a.clone())),
        21 => Box::new(h::split::<U3>() >> h::sumi::<U3, _, _>(move |_| a.clone())),
        22 => Box::new(h::pipei::<U3, _, _>(move |_| a.clone())),
        23 => Box::new(h::branchi::<U2, _, _>(move |_| a.clone()) >> h::join::<U2>()),
        24 => Box::new(h::split::<U4>() >> h::stacki::<U4, _, _>(move |_| a.clone()) >> h::join::<U4>()),
        25 => Box::new(BigBlockAdapter::new(Box::new(a))),
        26 => Box::new(h::pass() & (h::mul(0.0) >> h::add(1.0) >> h::resample(h::zero() >> a))),
        27 => { let (_, b) = Slot::new(Box::new(a)); Box::new(b) }
        28 => { let mut s = Sequencer::new(true, 1); s.push(0.0, 10.0, Fade::Smooth, 0.0, 0.0, Box::new(h::zero() >> a)); Box::new(h::pass() & (h::sink() | unit::<U0, U1>(Box::new(s)))) }
        29 => Box::new(h::split::<U2>() >> h::reverb3_stereo(1.0, 0.5, a * 0.9) >> h::join::<U2>()),
        30 => Box::new(h::split::<U2>() >> h::reverb2_stereo(10.0, 1.0, 0.5, 1.0, a * 0.9) >> h::join::<U2>()),
        31 => Box::new(h::split::<U2>() >> h::multipass::<U2>() >> unit::<U2, U2>(Box::new(fundsp::hacker::FeedbackUnit::new(0.001, Box::new((a * 0.5) | h::pass() * 0.3)))) >> h::join::<U2>()),
        32 => Box::new(h::thru(a)),
        _ => Box::new(h::pass() & (h::sink() | unit::<U0, U1>(Box::new(BlockRateAdapter::new(Box::new(h::dc(0.5) >> a)))))),
    }
}

fn wrappers(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let depth = src.size(1, 3);
    let mut u = wrap(src, depth, &mut log);
    ctx.nontrivial();
    let r = prepare_and_play(src, &mut u, &[Kind::Audio], &mut log, "wrapper");
    ctx.note(&log);
    r
}

fn lazy(src: &mut Src, ins: usize) -> Un {
    let l = An(Lazy { v: Vec::new(), rate: 0.0 });
    match (ins, src.below(4)) {
        (1, 0) => Box::new(l),
        (1, 1) => Box::new(h::limiter(0.005, 0.01)),
        (1, 2) => Box::new(h::delay(0.01)),
        (1, _) => Box::new(h::lowpass_hz(900.0, 1.0)),
        (_, 0) => Box::new(h::zero() >> l),
        (_, 1) => Box::new(h::dc(0.3) >> h::limiter(0.005, 0.01)),
        (_, 2) => Box::new(h::saw_hz(220.0)),
        _ => Box::new(h::noise() >> h::pan(0.0) >> h::reverb_stereo(10.0, 1.0, 0.5) >> h::join::<U2>()),
    }
}

/// The rendering sides of networks, while they receive new versions, edits and settings.
fn net_backend(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let mut net = Net::new(1, 1);
    net.set_sample_rate(sr);
    let mut ids: Vec<NodeId> = vec![];
    for _ in 0..src.size(1, 3) { ids.push(net.push(lazy(src, 1))); }
    net.pipe_input(ids[0]);
    for i in 1..ids.len() { net.pipe_all(ids[i - 1], ids[i]); }
    net.pipe_output(*ids.last().unwrap());
    let mut back = net.backend();
    let mut m = Meter::new(1, 1);
    let mut log = format!("net of {} at {}", ids.len(), sr);
    let ops = src.size(1, 12);
    for _ in 0..ops {
        match src.below(7) {
            0 => { let id = net.push(lazy(src, 1)); net.pipe_all(*ids.last().unwrap(), id); net.pipe_output(id); ids.push(id); log.push_str("; push"); }
            1 if ids.len() > 1 => {
                let i = src.size(0, ids.len() - 2);
                let id = ids.remove(i);
                net.remove(id);
                if i == 0 { net.pipe_input(ids[0]); } else { net.pipe_all(ids[i - 1], ids[i]); }
                log.push_str("; remove");
            }
            2 => { let id = *src.pick(&ids); let t = src.logf(0.0001, 0.01) as f32; net.crossfade(id, Fade::Smooth, t, lazy(src, 1)); log.push_str(&format!("; crossfade {}", t)); }
            3 => { let id = *src.pick(&ids); net.replace(id, lazy(src, 1)); log.push_str("; replace"); }
            4 => { let id = *src.pick(&ids); net.set(Setting::center(500.0).node(id)); log.push_str("; set"); }
            _ => { net.commit(); log.push_str("; commit"); }
        }
        if src.below(3) > 0 {
            let n = src.size(1, 400);
            let x = gen_input(src, &[Kind::Audio], n);
            let st = gen_steps(src, n);
            log.push_str(&format!("; play {}", n));
            verdict(m.play(&mut back, &x, 0, &st), "net backend", &log)?;
        }
    }
    net.commit();
    let n = src.size(1, 700);
    let x = gen_input(src, &[Kind::Audio], n);
    let st = gen_steps(src, n);
    log.push_str(&format!("; commit play {}", describe_steps(&st)));
    ctx.note(&log);
    ctx.nontrivial();
    verdict(m.play(&mut back, &x, 0, &st), "net backend", &log)
}

fn seq_backend(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = *src.pick(RATES);
    let replay = src.bool();
    let mut seq = Sequencer::new(replay, 1);
    seq.set_sample_rate(sr);
    let mut back = seq.backend();
    let mut m = Meter::new(0, 1);
    let mut log = format!("sequencer at {} replay {}", sr, replay);
    let mut ids = vec![];
    let mut now = 0usize;
    let ops = src.size(1, 20);
    for _ in 0..ops {
        match src.below(6) {
            0 | 1 => {
                let t = (now + src.size(0, 300)) as f64 / sr;
                let d = src.size(1, 400) as f64 / sr;
                let f = (src.size(0, 20) as f64 / sr).min(d * 0.99);
                let count = if src.chance(1, 10) { src.size(1, 200) } else { 1 };
                for _ in 0..count { ids.push(seq.push(t, t + d, Fade::Power, f, f, lazy(src, 0))); }
                log.push_str(&format!("; push {}", count));
            }
            2 => { let d = src.size(1, 400) as f64 / sr; ids.push(seq.push_relative(0.0, d, Fade::Smooth, 0.0, 0.0, lazy(src, 0))); log.push_str("; push_relative"); }
            3 if !ids.is_empty() => { let id = *src.pick(&ids); seq.edit(id, (now + src.size(0, 200)) as f64 / sr, 0.0); log.push_str("; edit"); }
            4 if !ids.is_empty() => { let id = *src.pick(&ids); seq.edit_relative(id, src.size(0, 200) as f64 / sr, 0.0); log.push_str("; edit_relative"); }
            5 if src.chance(1, 4) => { seq.reset(); now = 0; log.push_str("; reset"); }
            _ => (),
        }
        if src.below(3) > 0 {
            let n = src.size(1, 400);
            let st = gen_steps(src, n);
            log.push_str(&format!("; play {}", n));
            verdict(m.play(&mut back, &vec![], 0, &st), "sequencer backend", &log)?;
            now += n;
        }
    }
    let n = src.size(1, 900);
    let st = gen_steps(src, n);
    log.push_str(&format!("; play {}", describe_steps(&st)));
    ctx.note(&log);
    if !ids.is_empty() { ctx.nontrivial(); }
    verdict(m.play(&mut back, &vec![], 0, &st), "sequencer backend", &log)
}

fn slot_backend(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut slot, mut back) = Slot::new(lazy(src, 1));
    back.allocate();
    let mut m = Meter::new(1, 1);
    let mut log = "slot".to_string();
    // Samples left of a fade that is surely running.
    let mut busy = 0usize;
    let ops = src.size(1, 12);
    for _ in 0..ops {
        if src.bool() {
            let t = src.logf(0.0001, 0.02);
            let mut u = lazy(src, 1);
            u.set_sample_rate(44100.0);
            // A unit that waits for the end of a fade may also be prepared by preparing the slot.
            let waits = busy > 70 && src.bool();
            if !waits { u.allocate(); }
            slot.set(Fade::Smooth, t, u);
            if waits {
                let x = gen_input(src, &[Kind::Audio], 1);
                verdict(m.play(&mut back, &x, 0, &vfcore::render::all_blocks(1)), "slot backend", &log)?;
                back.allocate();
                log.push_str("; unit prepared while waiting");
            }
            busy = if busy > 0 { 0 } else { (t * 44100.0) as usize };
            log.push_str(&format!("; set {}", t));
        }
        let n = src.size(1, 300);
        let x = gen_input(src, &[Kind::Audio], n);
        let st = gen_steps(src, n);
        log.push_str(&format!("; play {}", describe_steps(&st)));
        verdict(m.play(&mut back, &x, 0, &st), "slot backend", &log)?;
        busy = busy.saturating_sub(n + 1);
    }
    ctx.note(&log);
    ctx.nontrivial();
    Ok(())
}

/// Listeners, shared variables, snoops, meters and rings while the other side is active.
fn controls(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sender, l) = h::listen(h::lowpass_hz(1000.0, 1.0));
    let v = h::shared(1.0);
    let mon = h::shared(0.0);
    let (mut snoop, back) = h::snoop(src.size(1, 4096));
    let mut u: Un = Box::new(l >> back >> h::monitor(&mon, h::Meter::Rms(0.1)) >> (h::pass() * h::var(&v)) >> (h::pass() | h::timer(&mon) ) );
    u.set_sample_rate(44100.0);
    u.allocate();
    let mut m = Meter::new(1, 1);
    let mut log = "controls".to_string();
    for _ in 0..src.size(1, 10) {
        match src.below(4) { 0 => { let _ = sender.try_send(Setting::center_q(2000.0, 1.0)); } 1 => v.set(0.5), 2 => { snoop.update(); } _ => (), }
        let n = src.size(1, 300);
        let x = gen_input(src, &[Kind::Audio], n);
        let st = gen_steps(src, n);
        log.push_str(&format!("; play {}", describe_steps(&st)));
        verdict(m.play(&mut *u, &x, 0, &st), "controls", &log)?;
    }
    ctx.note(&log);
    ctx.nontrivial();
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C19",
        rule: "a counting allocator is active around every tick and process call. units: catalogue units and random graphs prepared at several rates; wrappers: every containing construct around a unit that allocates on its first sample unless told in advance; backends and controls: histories of updates between rendered stretches. Non-trivial when something was rendered after preparation (always) or an event was pushed",
        assumptions: &["granular synthesis creates grains while rendering by design and is excluded", "units given to slots are prepared by the user", "at most 1000 outstanding messages"],
        subs: vec![
            Sub { name: "units", quick: 40000, thorough: 2000000, f: units },
            Sub { name: "wrappers", quick: 30000, thorough: 1000000, f: wrappers },
            Sub { name: "net backend", quick: 4000, thorough: 200000, f: net_backend },
            Sub { name: "sequencer backend", quick: 600, thorough: 30000, f: seq_backend },
            Sub { name: "slot backend", quick: 4000, thorough: 200000, f: slot_backend },
            Sub { name: "controls", quick: 2000, thorough: 100000, f: controls },
        ],
    })
}
