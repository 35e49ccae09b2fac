//! C15: saving and loading waves.
use fundsp::hacker::Wave;
use std::io::{Error, ErrorKind, Write};
use vfcore::*;

fn sample(src_seed: u64, i: u64, kind: u64) -> f32 {
    let r = render::rnd11(src_seed, i);
    let u = mix(src_seed ^ (i * 7 + 3));
    match kind {
        0 => r,
        1 => r * 3.0,
        2 => [0.0, -0.0, 1.0, -1.0, 1.0000001, -1.0000001, 0.99999994, -0.99999994, 1.0e9, -1.0e9, f32::MIN_POSITIVE, 1.0e-42, f32::MAX, f32::MIN][(u % 14) as usize],
        // On and near quantization boundaries.
        3 => ((u % 65537) as f32 - 32768.0 + [0.0, 0.5, 0.499, -0.5][(u >> 32) as usize % 4]) / 32767.49,
        4 => ((u % 65537) as f32 - 32768.0) / 32768.0,
        _ => { let f = f32::from_bits(u as u32); if f.is_nan() { 0.25 } else { f } }
    }
}

fn gen_wave(src: &mut Src, max: usize) -> (Wave, Vec<Vec<f32>>, u32, String) {
    let ch = if src.chance(1, 6) { src.size(3, 8) } else { src.size(1, 3) };
    let n = if src.chance(1, 10) { src.size(0, max) } else { src.size(0, 60) };
    let sr = if src.bool() { *src.pick(&[44100u32, 48000, 8000, 96000, 192000]) } else { src.size(1, 400000) as u32 };
    // Files hold integer sample rates: others are rounded.
    let rate = sr as f64 + if src.chance(1, 4) { *src.pick(&[0.25, -0.25, 0.45, -0.45, -0.0001]) } else { 0.0 };
    let kind = src.below(6);
    let seed = src.seed();
    let d: Vec<Vec<f32>> = (0..ch).map(|c| (0..n).map(|i| sample(seed ^ mix(c as u64), i as u64, kind)).collect()).collect();
    let mut w = Wave::new(0, rate);
    for c in &d { w.push_channel(c); }
    (w, d, sr, format!("{} channels of {} samples at {} Hz, kind {}", ch, n, rate, kind))
}

struct Wav<'a> { format: u16, channels: u16, rate: u32, data: &'a [u8] }
/// Independent strict reader of the container.
fn parse(b: &[u8]) -> Result<(Wav<'_>, u16), String> {
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    if b.len() < 44 { return Err(format!("only {} bytes", b.len())); }
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" || &b[12..16] != b"fmt " { return Err("signatures".into()); }
    if u32at(4) as usize != b.len() - 8 { return Err(format!("RIFF length {} of {} bytes", u32at(4), b.len())); }
    let fl = u32at(16) as usize;
    if fl < 16 || 20 + fl + 8 > b.len() { return Err(format!("fmt length {}", fl)); }
    let (format, channels, rate, byte_rate, align, bits) = (u16at(20), u16at(22), u32at(24), u32at(28), u16at(32), u16at(34));
    if align != channels * (bits / 8) { return Err(format!("block align {} for {} channels of {} bits", align, channels, bits)); }
    if byte_rate != rate.wrapping_mul(align as u32) { return Err(format!("byte rate {}", byte_rate)); }
    let at = 20 + fl;
    if &b[at..at + 4] != b"data" { return Err("no data block".into()); }
    if u32at(at + 4) as usize != b.len() - at - 8 { return Err(format!("data length {}, {} bytes left", u32at(at + 4), b.len() - at - 8)); }
    Ok((Wav { format, channels, rate, data: &b[at + 8..] }, bits))
}

fn check_file(b: &[u8], d: &[Vec<f32>], sr: u32, float: bool, desc: &str) -> Res {
    let (w, bits) = match parse(b) { Ok(x) => x, Err(e) => return fail("structure", format!("{}: {}", desc, e)) };
    ensure!(w.channels as usize == d.len() && w.rate == sr, "header", "{}: header says {} channels at {}", desc, w.channels, w.rate);
    ensure!((w.format, bits) == if float { (3, 32) } else { (1, 16) }, "format", "{}: format {} with {} bits", desc, w.format, bits);
    let (ch, n) = (d.len(), d[0].len());
    ensure!(w.data.len() == ch * n * bits as usize / 8, "size", "{}: {} bytes of data", desc, w.data.len());
    for i in 0..n {
        for c in 0..ch {
            let k = i * ch + c;
            let x = d[c][i];
            if float {
                let y = f32::from_le_bytes([w.data[k * 4], w.data[k * 4 + 1], w.data[k * 4 + 2], w.data[k * 4 + 3]]);
                ensure!(x.to_bits() == y.to_bits(), "float sample", "{}: channel {} sample {} is {:?}, stored {:?}", desc, c, i, x, y);
            } else {
                let y = i16::from_le_bytes([w.data[k * 2], w.data[k * 2 + 1]]);
                let t = (x as f64).clamp(-1.0, 1.0) * 32767.5;
                ensure!((y as f64 - t).abs() <= 1.01, "16-bit sample", "{}: channel {} sample {} is {:?}, stored {}", desc, c, i, x, y);
                ensure!(!(x >= 1.0) || y == 32767, "16-bit top", "{}: {:?} stored as {}", desc, x, y);
                ensure!(!(x <= -1.0) || y <= -32767, "16-bit bottom", "{}: {:?} stored as {}", desc, x, y);
                ensure!(x != 0.0 || y == 0, "16-bit zero", "{}: zero stored as {}", desc, y);
            }
        }
    }
    Ok(())
}

fn check_loaded(w: &Wave, d: &[Vec<f32>], sr: u32, step: f64, desc: &str) -> Res {
    ensure!(w.sample_rate() == sr as f64 && w.channels() == d.len() && w.len() == d[0].len(), "loaded header", "{}: loaded {} channels of {} samples at {}", desc, w.channels(), w.len(), w.sample_rate());
    for c in 0..d.len() {
        ensure!(w.channel(c).len() == d[c].len(), "loaded length", "{}: channel {} has {} samples", desc, c, w.channel(c).len());
        for i in 0..d[c].len() {
            let (x, y) = (d[c][i], w.at(c, i));
            if step == 0.0 {
                ensure!(x == y, "loaded float sample", "{}: channel {} sample {} is {:?}, loaded {:?}", desc, c, i, x, y);
            } else {
                ensure!(((x as f64).clamp(-1.0, 1.0) - y as f64).abs() <= step, "loaded sample", "{}: channel {} sample {} is {:?}, loaded {:?}", desc, c, i, x, y);
            }
        }
    }
    Ok(())
}

fn write(w: &Wave, float: bool, out: &mut impl Write) -> std::io::Result<()> { if float { w.write_wav32(out) } else { w.write_wav16(out) } }

fn roundtrip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, d, sr, desc) = gen_wave(src, 6000);
    let float = src.bool();
    let desc = format!("{} {}", if float { "32-bit" } else { "16-bit" }, desc);
    ctx.note(&desc);
    let mut out = vec![];
    ensure!(write(&w, float, &mut out).is_ok(), "write", "{}: writing to memory failed", desc);
    check_file(&out, &d, sr, float, &desc)?;
    if w.is_empty() { return Ok(()); }
    ctx.nontrivial();
    match Wave::load_slice(out) {
        Ok(l) => check_loaded(&l, &d, sr, if float { 0.0 } else { 1.6 / 32768.0 }, &desc),
        Err(e) => fail("load", format!("{}: cannot be loaded: {}", desc, e)),
    }
}

/// A medium of limited patience.
/// Many channels and long files: the written container is right at any size.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let float = src.bool();
    let (ch, n) = if src.chance(19, 20) { let ch = src.logf(8.0, 400.0) as usize; (ch, src.size(0, 40)) } else { let ch = src.size(1, 3); (ch, src.logf(3.0e5, 6.0e6) as usize / ch) };
    let sr = *src.pick(&[44100u32, 48000, 96000]);
    let kind = src.below(6);
    let seed = src.seed();
    // Long channels repeat a prime number of samples.
    let d: Vec<Vec<f32>> = (0..ch).map(|c| {
        let base: Vec<f32> = (0..std::cmp::min(n, 997)).map(|i| sample(seed ^ mix(c as u64), i as u64, kind)).collect();
        (0..n).map(|i| base[i % 997]).collect()
    }).collect();
    let mut w = Wave::new(0, sr as f64);
    for c in &d { w.push_channel(c); }
    let desc = format!("{} {ch} channels of {n} samples at {sr} Hz, kind {kind}", if float { "32-bit" } else { "16-bit" });
    ctx.note(&desc);
    ctx.label(if ch >= 8 { "many channels" } else { "long" });
    let mut out = vec![];
    ensure!(write(&w, float, &mut out).is_ok(), "write", "{}: writing to memory failed", desc);
    ctx.nontrivial();
    check_file(&out, &d, sr, float, &desc)?;
    if ch > 3 || n == 0 { return Ok(()); }
    match Wave::load_slice(out) {
        Ok(l) => check_loaded(&l, &d, sr, if float { 0.0 } else { 1.6 / 32768.0 }, &desc),
        Err(e) => fail("load", format!("{}: cannot be loaded: {}", desc, e)),
    }
}

struct Medium { got: Vec<u8>, room: usize, how: u64, chunk: usize, tick: u64, flush_fails: bool, failed: bool, flushed: usize }
impl Write for Medium {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.tick += 1;
        if self.chunk > 0 && self.tick % 3 == 0 { return Err(Error::new(ErrorKind::Interrupted, "interrupted")); }
        let left = self.room.saturating_sub(self.got.len());
        if left == 0 {
            self.failed = true;
            return match self.how { 0 => Err(Error::new(ErrorKind::StorageFull, "full")), 1 => Ok(0), 2 => Err(Error::new(ErrorKind::BrokenPipe, "gone")), _ => Err(Error::new(ErrorKind::Other, "other")) };
        }
        let n = b.len().min(left).min(if self.chunk > 0 { self.chunk } else { usize::MAX });
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushed = self.got.len();
        if self.flush_fails { self.failed = true; return Err(Error::new(ErrorKind::Other, "flush")); }
        Ok(())
    }
}

fn faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, d, sr, desc) = gen_wave(src, 20000);
    let float = src.bool();
    let size = 44 + w.len() * w.channels() * if float { 4 } else { 2 };
    let room = match src.below(5) { 0 => usize::MAX, 1 => size, 2 => size - 1, 3 => src.size(0, 60), _ => src.size(0, size) };
    let chunk = if src.bool() { 0 } else { src.size(1, 50) };
    let mut m = Medium { got: vec![], room, how: src.below(4), chunk, tick: 0, flush_fails: src.chance(1, 5), failed: false, flushed: 0 };
    let r = write(&w, float, &mut m);
    let desc = format!("{} {}, room for {} of {} bytes, failure {}, chunk {}, flush fails {}", if float { "32-bit" } else { "16-bit" }, desc, room, size, m.how, chunk, m.flush_fails);
    ctx.note(&desc);
    if room < size { ctx.nontrivial(); ctx.label("medium fills up"); }
    if room < size {
        ensure!(r.is_err(), "fault reported", "{}: saving reported success with {} bytes stored", desc, m.got.len());
    } else if !m.flush_fails {
        ensure!(r.is_ok(), "no fault", "{}: saving failed: {:?}", desc, r);
        check_file(&m.got, &d, sr, float, &desc)?;
    } else if r.is_ok() {
        // Whoever reports success has stored everything.
        check_file(&m.got, &d, sr, float, &desc)?;
    }
    Ok(())
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Through the file system.
fn files(src: &mut Src, ctx: &mut Ctx) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let (w, d, sr, desc) = gen_wave(src, 6000);
    let float = src.bool();
    let desc = format!("{} file of {}", if float { "32-bit" } else { "16-bit" }, desc);
    ctx.note(&desc);
    ctx.nontrivial();
    let dir = std::env::temp_dir().join(format!("vf-c15-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
    if std::fs::create_dir(&dir).is_err() { return Ok(()); }
    let dir = Scratch(dir);
    let path = dir.0.join("wave.wav");
    // An older, longer file is replaced.
    if src.bool() { let _ = std::fs::write(&path, vec![7u8; 100000]); }
    let save = |p: &std::path::Path| if float { w.save_wav32(p) } else { w.save_wav16(p) };
    if let Err(e) = save(&path) { return fail("save", format!("{}: {}", desc, e)); }
    let b = std::fs::read(&path).unwrap();
    check_file(&b, &d, sr, float, &desc)?;
    if !w.is_empty() {
        match Wave::load(&path) {
            Ok(l) => check_loaded(&l, &d, sr, if float { 0.0 } else { 1.6 / 32768.0 }, &desc)?,
            Err(e) => return fail("load", format!("{}: cannot be loaded: {}", desc, e)),
        }
    }
    ensure!(save(&dir.0.join("missing").join("wave.wav")).is_err(), "missing folder", "{}: saving into a missing folder reported success", desc);
    ensure!(Wave::load(dir.0.join("missing.wav")).is_err(), "missing file", "loading a missing file reported success");
    if std::path::Path::new("/dev/full").exists() {
        ensure!(save(std::path::Path::new("/dev/full")).is_err(), "full device", "{}: saving to a full device reported success", desc);
    }
    Ok(())
}

/// Files made by others: all the PCM formats of the container.
fn foreign(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ch = src.size(1, 2);
    let n = if src.chance(1, 8) { src.size(1, 5000) } else { src.size(1, 60) };
    let sr = *src.pick(&[44100u32, 48000, 8000, 96000]);
    let kind = src.below(6);
    let (bits, format) = [(8u16, 1u16), (16, 1), (24, 1), (32, 1), (32, 3), (64, 3)][kind as usize];
    let seed = src.seed();
    let desc = format!("{} channels of {} samples at {}, {} bits format {}", ch, n, sr, bits, format);
    ctx.note(&desc);
    ctx.nontrivial();
    let mut d = vec![vec![0.0f32; n]; ch];
    let mut data: Vec<u8> = vec![];
    for i in 0..n {
        for c in 0..ch {
            let u = mix(seed ^ (i * 2 + c) as u64);
            match kind {
                0 => { let x = u as u8; data.push(x); d[c][i] = ((x as f64 - 128.0) / 128.0) as f32; }
                1 => { let x = u as i16; data.extend(x.to_le_bytes()); d[c][i] = (x as f64 / 32768.0) as f32; }
                2 => { let x = (u as i32) >> 8; data.extend(&x.to_le_bytes()[..3]); d[c][i] = (x as f64 / 8388608.0) as f32; }
                3 => { let x = u as i32; data.extend(x.to_le_bytes()); d[c][i] = (x as f64 / 2147483648.0) as f32; }
                4 => { let x = render::rnd11(seed, u) * 2.0; data.extend(x.to_le_bytes()); d[c][i] = x; }
                _ => { let x = render::rnd11(seed, u) as f64 * 1.3; data.extend(x.to_le_bytes()); d[c][i] = x as f32; }
            }
        }
    }
    let mut b: Vec<u8> = vec![];
    b.extend(b"RIFF"); b.extend((36 + data.len() as u32).to_le_bytes()); b.extend(b"WAVEfmt "); b.extend(16u32.to_le_bytes());
    b.extend(format.to_le_bytes()); b.extend((ch as u16).to_le_bytes()); b.extend(sr.to_le_bytes()); b.extend((sr * ch as u32 * bits as u32 / 8).to_le_bytes());
    b.extend((ch as u16 * bits / 8).to_le_bytes()); b.extend(bits.to_le_bytes()); b.extend(b"data"); b.extend((data.len() as u32).to_le_bytes()); b.extend(&data);
    let l = if src.bool() { Wave::load_slice(b) } else { Wave::load_slice_track(b, Some(0)) };
    let l = match l { Ok(l) => l, Err(e) => return fail("load", format!("{}: {}", desc, e)) };
    ensure!(l.sample_rate() == sr as f64 && l.channels() == ch && l.len() == n, "foreign header", "{}: loaded {} channels of {} samples at {}", desc, l.channels(), l.len(), l.sample_rate());
    for c in 0..ch { for i in 0..n {
        ensure!((l.at(c, i) as f64 - d[c][i] as f64).abs() <= 2.0e-7 * (1.0 + d[c][i].abs() as f64), "foreign sample", "{}: channel {} sample {} is {}, loaded {}", desc, c, i, d[c][i], l.at(c, i));
    } }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C15",
        rule: "waves of 1 to 8 channels with ordinary, extreme, out-of-range and boundary samples, written and read back; files made by other means in every PCM format; media that accept few bytes at a time, are interrupted, fill up at any byte, or fail to flush; non-trivial when there are samples to compare or the medium fails",
        assumptions: &["no NaN samples", "an empty wave is written but not read back", "stored sample rates are whole"],
        subs: vec![
            Sub { name: "roundtrip", quick: 60000, thorough: 5000000, f: roundtrip },
            Sub { name: "large", quick: 400, thorough: 20000, f: large },
            Sub { name: "faults", quick: 100000, thorough: 10000000, f: faults },
            Sub { name: "files", quick: 1500, thorough: 40000, f: files },
            Sub { name: "foreign", quick: 30000, thorough: 2000000, f: foreign },
        ],
    })
}
