//! C23: audio buffers keep channels separate and address samples faithfully.
use fundsp::buffer::{BufferArray, BufferMut, BufferRef, BufferVec};
use fundsp::hacker::{F32x, U0, U1, U2, U3, U4, U5, U8, U13};
use vfcore::*;

type Model = Vec<[f32; 64]>;

fn val(src: &mut Src) -> f32 {
    match src.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::NAN,
        3 => f32::INFINITY,
        4 => f32::from_bits(src.below(0x7f000000) as u32),
        _ => src.f32(-2.0, 2.0),
    }
}
fn vec8(src: &mut Src) -> F32x {
    let a: [f32; 8] = core::array::from_fn(|_| val(src));
    F32x::new(a)
}
fn lanes(x: F32x) -> [f32; 8] { x.to_array() }
/// Bit equality, any NaN equal to any NaN.
fn eq(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

macro_rules! read_all {
    ($what:expr, $b:expr, $m:expr) => {{
        let m: &[[f32; 64]] = $m;
        ensure!($b.channels() == m.len(), "channels", "{}: {} channels, expected {}", $what, $b.channels(), m.len());
        for c in 0..m.len() {
            for i in 0..64 {
                let y = $b.at_f32(c, i);
                ensure!(eq(y, m[c][i]), "at_f32", "{}: sample {} of channel {} is {}, last written was {}", $what, i, c, y, m[c][i]);
            }
            for j in 0..8 {
                let y = lanes($b.at(c, j));
                for k in 0..8 { ensure!(eq(y[k], m[c][j * 8 + k]), "at", "{}: lane {} of item {} of channel {} is {}, last written was {}", $what, k, j, c, y[k], m[c][j * 8 + k]); }
            }
            {
                let s = $b.channel(c);
                ensure!(s.len() == 8, "channel", "{}: channel slice has {} items", $what, s.len());
                for j in 0..8 { for k in 0..8 { let y = lanes(s[j])[k]; ensure!(eq(y, m[c][j * 8 + k]), "channel", "{}: lane {} of item {} of channel slice {} is {}, last written was {}", $what, k, j, c, y, m[c][j * 8 + k]); } }
            }
            {
                let s = $b.channel_f32(c);
                ensure!(s.len() == 64, "channel_f32", "{}: scalar channel slice has {} samples", $what, s.len());
                for i in 0..64 { ensure!(eq(s[i], m[c][i]), "channel_f32", "{}: sample {} of scalar slice {} is {}, last written was {}", $what, i, c, s[i], m[c][i]); }
            }
        }
    }};
}

/// Writes through the operations shared by all three kinds of writable buffers.
macro_rules! write_one {
    ($src:expr, $b:expr, $m:expr, $off:expr, $n:expr) => {{
        let c = $src.below($n as u64) as usize;
        let mc = $off + c;
        match $src.below(4) {
            0 => { let i = $src.below(64) as usize; let v = val($src); $b.set_f32(c, i, v); $m[mc][i] = v; "set_f32" }
            1 => { let j = $src.below(8) as usize; let v = vec8($src); $b.set(c, j, v); $m[mc][j * 8..j * 8 + 8].copy_from_slice(&lanes(v)); "set" }
            2 => {
                let s = $b.channel_mut(c);
                let (a, z) = { let x = $src.size(0, 8); let y = $src.size(0, 8); (x.min(y), x.max(y)) };
                for j in a..z { let v = vec8($src); s[j] = v; $m[mc][j * 8..j * 8 + 8].copy_from_slice(&lanes(v)); }
                "channel_mut"
            }
            _ => {
                let s = $b.channel_f32_mut(c);
                let (a, z) = { let x = $src.size(0, 64); let y = $src.size(0, 64); (x.min(y), x.max(y)) };
                for i in a..z { let v = val($src); s[i] = v; $m[mc][i] = v; }
                "channel_f32_mut"
            }
        }
    }};
}

fn mut_ops(src: &mut Src, mut b: BufferMut, m: &mut Model, off: usize, depth: usize, log: &mut Vec<String>) -> Res {
    let n = b.channels();
    for _ in 0..src.size(0, 4) {
        if n == 0 { break; }
        match src.below(7) {
            0 => {
                let c = src.below(n as u64) as usize; let j = src.below(8) as usize; let v = vec8(src);
                b.add(c, j, v);
                for k in 0..8 { m[off + c][j * 8 + k] += lanes(v)[k]; }
                log.push("add".into());
            }
            1 => {
                let c = src.below(n as u64) as usize; let j = src.below(8) as usize; let v = vec8(src);
                *b.at_mut(c, j) = v;
                m[off + c][j * 8..j * 8 + 8].copy_from_slice(&lanes(v));
                log.push("at_mut".into());
            }
            2 if depth < 3 => {
                let first = src.size(0, n);
                let count = src.size(0, n - first);
                log.push(format!("subset {}+{} (", first, count));
                mut_ops(src, b.subset(first, count), m, off + first, depth + 1, log)?;
                log.push(")".into());
            }
            3 => {
                let r = b.buffer_ref();
                ref_ops(src, &r, &m[off..off + n], 0)?;
            }
            _ => { let w = write_one!(src, b, m, off, n); log.push(w.into()); }
        }
    }
    read_all!("BufferMut", b, &m[off..off + n]);
    Ok(())
}

fn ref_ops(src: &mut Src, r: &BufferRef, m: &[[f32; 64]], depth: usize) -> Res {
    read_all!("BufferRef", r, m);
    if depth < 3 && src.bool() {
        let n = m.len();
        let first = src.size(0, n);
        let count = src.size(0, n - first);
        ref_ops(src, &r.subset(first, count), &m[first..first + count], depth + 1)?;
    }
    Ok(())
}

fn vector(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.size(0, 6);
    let mut m: Model = vec![[0.0; 64]; n];
    let mut b = BufferVec::new(n);
    let mut log: Vec<String> = vec![format!("BufferVec of {} channels", n)];
    read_all!("new BufferVec", b, &m[..]);
    for _ in 0..src.size(1, 10) {
        ensure!(b.length() == 8 && b.len() == 8, "length", "length is {} {}", b.length(), b.len());
        match src.below(8) {
            0 => { b.clear(); for c in m.iter_mut() { *c = [0.0; 64]; } log.push("clear".into()); }
            1 => { let k = src.size(0, 6); b.resize(k); m.resize(k, [0.0; 64]); log.push(format!("resize {}", k)); }
            2 => { log.push("mut (".into()); mut_ops(src, b.buffer_mut(), &mut m, 0, 0, &mut log)?; log.push(")".into()); }
            3 => { ref_ops(src, &b.buffer_ref(), &m, 0)?; }
            4 => {
                // A clone is independent.
                let mut c = b.clone(); let mut mc = m.clone();
                if !mc.is_empty() { let k = mc.len(); write_one!(src, c, mc, 0, k); }
                read_all!("clone of BufferVec", c, &mc[..]);
                if src.bool() { b = c; m = mc; }
                log.push("clone".into());
            }
            _ if !m.is_empty() => { let k = m.len(); let w = write_one!(src, b, m, 0, k); log.push(w.into()); ctx.nontrivial(); }
            _ => (),
        }
        read_all!("BufferVec", b, &m[..]);
    }
    ctx.note(log.join(" "));
    Ok(())
}

fn array(src: &mut Src, ctx: &mut Ctx) -> Res {
    macro_rules! go { ($N:ty, $n:expr) => {{
        let mut m: Model = vec![[0.0; 64]; $n];
        let mut b = BufferArray::<$N>::new();
        let mut log: Vec<String> = vec![format!("BufferArray of {} channels", $n)];
        read_all!("new BufferArray", b, &m[..]);
        for _ in 0..src.size(1, 8) {
            ensure!(b.length() == 8 && b.len() == 8, "length", "length is {} {}", b.length(), b.len());
            match src.below(7) {
                0 => { b.clear(); for c in m.iter_mut() { *c = [0.0; 64]; } log.push("clear".into()); }
                1 => { log.push("mut (".into()); mut_ops(src, b.buffer_mut(), &mut m, 0, 0, &mut log)?; log.push(")".into()); }
                2 => { ref_ops(src, &b.buffer_ref(), &m, 0)?; }
                3 => {
                    let mut c = b.clone(); let mut mc = m.clone();
                    if $n > 0 { write_one!(src, c, mc, 0, $n); }
                    read_all!("clone of BufferArray", c, &mc[..]);
                    if src.bool() { b = c; m = mc; }
                    log.push("clone".into());
                }
                _ if $n > 0 => { let w = write_one!(src, b, m, 0, $n); log.push(w.into()); ctx.nontrivial(); }
                _ => (),
            }
            read_all!("BufferArray", b, &m[..]);
        }
        ctx.note(log.join(" "));
    }}; }
    match src.below(8) {
        0 => go!(U1, 1usize), 1 => go!(U2, 2usize), 2 => go!(U3, 3usize), 3 => go!(U4, 4usize), 4 => go!(U5, 5usize), 5 => go!(U8, 8usize), 6 => go!(U13, 13usize), _ => go!(U0, 0usize),
    }
    Ok(())
}

/// Buffers borrowed from a slice: nothing outside the slice is touched.
fn borrowed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let pre = src.size(0, 2);
    let n = src.size(0, 4);
    let post = src.size(0, 2);
    let mut m: Model = (0..pre + n + post).map(|c| core::array::from_fn(|i| (c * 64 + i) as f32)).collect();
    let mut data: Vec<F32x> = m.iter().flat_map(|c| c.chunks(8).map(|s| F32x::new(s.try_into().unwrap())).collect::<Vec<_>>()).collect();
    let mut log = vec![format!("slice of {} channels from {} of {}", n, pre, pre + n + post)];
    let (f, t) = (pre * 8, (pre + n) * 8);
    mut_ops(src, BufferMut::new(&mut data[f..t]), &mut m, pre, 0, &mut log)?;
    ref_ops(src, &BufferRef::new(&data[f..t]), &m[pre..pre + n], 0)?;
    for c in 0..m.len() { for i in 0..64 {
        let y = data[c * 8 + i / 8].as_array_ref()[i % 8];
        ensure!(eq(y, m[c][i]), "outside", "sample {} of channel {} (view covers {}..{}) is {}, expected {}", i, c, pre, pre + n, y, m[c][i]);
    } }
    ensure!(BufferMut::empty().channels() == 0 && BufferRef::empty().channels() == 0, "empty", "empty buffers have channels");
    let s = src.below(1000) as usize;
    ensure!(fundsp::simd_items(s) == (s + 7) / 8 && fundsp::full_simd_items(s) == s / 8, "items", "{} samples: {} items, {} full items", s, fundsp::simd_items(s), fundsp::full_simd_items(s));
    ctx.note(log.join(" "));
    if n > 0 { ctx.nontrivial(); }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C23",
        rule: "random sequences of scalar, vector, slice, add, clear, resize, clone, subset and reference operations on owned, inline and borrowed buffers against an array model; after every operation the whole buffer is read back through every accessor and bit compared. Non-trivial when something was written",
        assumptions: &["any NaN equals any NaN"],
        subs: vec![
            Sub { name: "vector", quick: 200000, thorough: 2000000, f: vector },
            Sub { name: "array", quick: 200000, thorough: 2000000, f: array },
            Sub { name: "borrowed", quick: 200000, thorough: 2000000, f: borrowed },
        ],
    });
}
