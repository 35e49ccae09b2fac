#!/usr/bin/env python3
"""refactor.py [CHECK...]: applies behaviour-keeping edits that change rounding to a scratch copy and runs
the checks there; every check has to stay quiet. Env EDITS=r01,r02 selects edits."""
import os, subprocess, sys, re
R = [
 ("r01","src/fir.rs","        for (i1, i2) in self.w[..N::USIZE].iter().zip(self.v[..N::USIZE].iter()) {\n            output += *i1 * *i2;","        for i in (0..N::USIZE).rev() {\n            output += self.w[i] * self.v[i];"),
 ("r02","src/pan.rs","            for (x, y) in input.iter().zip(self.matrix[i].iter()) {\n                value += (*x) * (*y);\n            }","            for j in (0..M::USIZE).rev() {\n                value += self.matrix[i][j] * input[j];\n            }"),
 ("r03","src/math.rs","    y1 + x\n        * T::from_f32(0.5)\n        * (y2 - y0\n            + x * (T::new(2) * y0 - T::new(5) * y1 + T::new(4) * y2 - y3\n                + x * (T::new(3) * (y1 - y2) + y3 - y0)))","    let h = T::from_f32(0.5);\n    let c1 = h * (y2 - y0);\n    let c2 = y0 - T::from_f32(2.5) * y1 + T::new(2) * y2 - h * y3;\n    let c3 = T::from_f32(1.5) * (y1 - y2) + h * (y3 - y0);\n    ((c3 * x + c2) * x + c1) * x + y1"),
 ("r04","src/svf.rs","        let v2 = self.ic2eq + self.coefs.a2 * self.ic1eq + self.coefs.a3 * v3;","        let v2 = self.coefs.a3 * v3 + self.coefs.a2 * self.ic1eq + self.ic2eq;"),
 ("r05","src/biquad.rs","        let y0 = self.coefs.b0 * x0 + self.coefs.b1 * self.x1 + self.coefs.b2 * self.x2\n            - self.coefs.a1 * self.y1\n            - self.coefs.a2 * self.y2;","        let feedforward = self.coefs.b0 * x0 + self.coefs.b1 * self.x1 + self.coefs.b2 * self.x2;\n        let feedback = self.coefs.a1 * self.y1 + self.coefs.a2 * self.y2;\n        let y0 = feedforward - feedback;"),
 ("r06","src/dynamics.rs","            output * Frame::splat(1.0 / limit)","            Frame::generate(|i| output[i] / limit)"),
 ("r07","src/follow.rs","        self.v1 = self.coeff_now * convert(input[0]) + rcoeff * self.v1;\n        self.v2 = self.coeff_now * self.v1 + rcoeff * self.v2;\n        self.v3 = self.coeff_now * self.v2 + rcoeff * self.v3;","        let pole = |x: F, y: F| rcoeff * y + self.coeff_now * x;\n        let v1 = pole(convert(input[0]), self.v1);\n        let v2 = pole(v1, self.v2);\n        let v3 = pole(v2, self.v3);\n        self.v1 = v1;\n        self.v2 = v2;\n        self.v3 = v3;"),
 ("r08","src/wave.rs","        let z = 1.0 / a;\n        for channel in 0..self.channels() {\n            for i in 0..self.len() {\n                self.set(channel, i, self.at(channel, i) * z);","        for channel in 0..self.channels() {\n            for i in 0..self.len() {\n                self.set(channel, i, self.at(channel, i) / a);"),
 ("r09","src/dynamics.rs","                self.state = self.state * self.smoothing + squared(value) * (1.0 - self.smoothing)","                self.state += (squared(value) - self.state) * (1.0 - self.smoothing)"),
 ("r10","src/feedback.rs","        output * Frame::splat((1.0 / sqrt(N::I32 as f64)) as f32)","        output * Frame::splat(1.0 / (N::I32 as f32).sqrt())"),
 ("r11","src/math.rs","    T::new(440) * exp2((x - T::new(69)) / T::new(12))","    T::new(440) * exp2(x / T::new(12) - T::from_f64(5.75))"),
 ("r12","src/math.rs","    bpm * (T::one() / T::new(60))","    bpm / T::new(60)"),
 ("r13","src/math.rs","    exp2(x * (T::one() / T::new(12)))","    exp2(x / T::new(12))"),
 ("r14","src/math.rs","    ((x * T::new(6) - T::new(15)) * x + T::new(10)) * x * x * x","    x * x * x * (x * (x * T::new(6) - T::new(15)) + T::new(10))"),
 ("r16","src/shape.rs","        self.state =\n            self.smoothing * self.state + (1.0 - self.smoothing) * (1.0e-6 + squared(input));","        let power = squared(input) + 1.0e-6;\n        self.state = lerp(power, self.state, self.smoothing);"),
 ("r17","src/shared.rs","        self.time += self.sample_duration;\n        self.shared.set_value(self.time as f32);","        let time = self.time + self.sample_duration;\n        self.shared.set_value(time as f32);\n        self.time = time;"),
 ("r18","src/combinator.rs","        current + (input - current) * afactor","        current * (T::one() - afactor) + input * afactor"),
 ("r19","src/moog.rs","        let x = -self.rez * self.s3 + convert(input[0]);","        let x = convert::<f32, F>(input[0]) - self.rez * self.s3;"),
 ("r20","src/rez.rs","        self.buf1 += self.f * (self.buf0 - self.buf1);","        self.buf1 = self.buf1 + self.f * self.buf0 - self.f * self.buf1;"),
 ("r21","src/resample.rs","        let d = self.consumer - self.consumer.floor();\n        let consumer_i = (self.consumer - d) as usize;","        let consumer_i = self.consumer as usize;\n        let d = self.consumer - consumer_i as f64;"),
 ("r22","src/envelope.rs","        let u = delerp(self.t_0, self.t_1, self.t);\n","        let u = (self.t - self.t_0) / next_interval;\n"),
 ("r23","src/sequencer.rs","                    let fade_in = clamp01(delerp(\n                        self.active[i].start_time,\n                        self.active[i].start_time + self.active[i].fade_in,\n                        self.time,\n                    ) as f32);","                    let fade_in = clamp01(\n                        ((self.time - self.active[i].start_time) / self.active[i].fade_in) as f32,\n                    );"),
 ("r24","src/sequencer.rs","                    let fade_out = delerp(\n                        self.active[i].end_time - self.active[i].fade_out,\n                        self.active[i].end_time,\n                        self.time,\n                    ) as f32;","                    let fade_left = (self.active[i].end_time - self.time) / self.active[i].fade_out;\n                    let fade_out = (1.0 - fade_left) as f32;"),
 ("r25","src/oscillator.rs","        self.x += dx * dt;\n        self.y += dy * dt;\n        self.z += dz * dt;\n        [self.x * 0.05757].into()","        let scale = input[0] * 2.91;\n        self.x += dx * scale / self.sr;\n        self.y += dy * scale / self.sr;\n        self.z += dz * scale / self.sr;\n        let _ = dt;\n        [self.x * 0.05757].into()"),
 ("r26","src/delay.rs","            output += lerp(self.buffer[tap_i1], self.buffer[tap_i2], tap_d);","            output += self.buffer[tap_i1] + (self.buffer[tap_i2] - self.buffer[tap_i1]) * tap_d;"),
 ("r27","src/delay.rs","        let v = input[0] - self.eta * self.z;\n        let y = self.eta * v + self.z;","        let v = input[0] - self.z * self.eta;\n        let y = self.z + v * self.eta;"),
 ("r28","src/slot.rs","            self.fade_phase += 1.0 / (self.fade_time * self.sample_rate);","            self.fade_phase += 1.0 / self.sample_rate / self.fade_time;"),
 ("r29","src/wavetable.rs","            (1.0 - w) * self.at(table + 1, phase) + w * self.at(table + 2, phase),","            lerp(self.at(table + 1, phase), self.at(table + 2, phase), w),"),
 ("r30","src/shape.rs","        (input * (self.0 * f32::PI * 0.5)).atan() * (2.0 / f32::PI)\n    }\n    #[inline]","        (input * self.0 * (f32::PI * 0.5)).atan() / (f32::PI * 0.5)\n    }\n    #[inline]"),
 ("r31","src/resynth.rs","            let window_value = self.window_function[self.window[i].index()];\n            self.window[i].write(input, window_value);\n            output += self.window[i].read(window_value * self.z);\n            self.window[i].advance();","            let window = &mut self.window[i];\n            let window_value = self.window_function[window.index()];\n            let previous: Frame<f32, O> = window.read(window_value);\n            window.write(input, window_value);\n            output += previous * Frame::splat(self.z);\n            window.advance();"),
 ("r41","src/pan.rs","    let angle = (clamp11(value) + T::one()) * (T::PI * T::from_f32(0.25));","    let eighth = T::PI * T::from_f32(0.25);\n    let angle = clamp11(value) * eighth + eighth;"),
 ("r42","src/svf.rs","        let a1 = F::one() / (F::one() + g * (g + k));","        let a1 = F::one() / (F::one() + g * g + g * k);"),
 ("r43","src/biquad.rs","        let a1: F = (c(2.0) * f * f - c(2.0)) * a0r;\n        let a2: F = (c(1.0) - F::SQRT_2 * f + f * f) * a0r;\n        let b0: F = f * f * a0r;","        let f2 = f * f;\n        let a0 = c(1.0) / a0r;\n        let a1: F = c(2.0) * (f2 - c(1.0)) / a0;\n        let a2: F = (c(1.0) + f2 - F::SQRT_2 * f) / a0;\n        let b0: F = f2 / a0;"),
 ("r44","src/biquad.rs","        let r: F = exp(-F::PI * center / (q * sample_rate));","        let r: F = exp(-F::PI / q * (center / sample_rate));"),
 ("r45","src/oscillator.rs","    (sin(f)\n        - r * sin(f - d)\n        - pow(r, n + T::one()) * (sin(f + (n + T::one()) * d) - r * sin(f + n * d)))","    let n1 = n + T::one();\n    let head = sin(f) - r * sin(f - d);\n    let tail = sin(f + n1 * d) - r * sin(f + n * d);\n    (head - pow(r, n1) * tail)"),
 ("r46","src/sequencer.rs","                    let mut fade = fade_phase;\n                    for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()\n                    {\n                        *x *= sine_ease(clamp01(fade));\n                        fade += fade_d;","                    for (k, x) in output.channel_f32_mut(channel)[..fade_end_i - start_index]\n                        .iter_mut()\n                        .enumerate()\n                    {\n                        *x *= sine_ease(clamp01(fade_phase + fade_d * k as f32));"),
 ("r46b","src/sequencer.rs","                    let mut fade = fade_phase;\n                    for x in output.channel_f32_mut(channel)[..fade_end_i - start_index].iter_mut()\n                    {\n                        *x *= smooth5(clamp01(fade));\n                        fade += fade_d;","                    for (k, x) in output.channel_f32_mut(channel)[..fade_end_i - start_index]\n                        .iter_mut()\n                        .enumerate()\n                    {\n                        *x *= smooth5(clamp01(fade_phase + fade_d * k as f32));"),
 ("r47","src/slot.rs","                        for x in output.channel_f32_mut(channel)[..n].iter_mut() {\n                            *x *= sine_ease(1.0 - fade);\n                            fade += fade_d;\n                        }","                        for (k, x) in output.channel_f32_mut(channel)[..n].iter_mut().enumerate() {\n                            *x *= sine_ease(1.0 - (fade + fade_d * k as f32));\n                        }\n                        fade += fade_d;\n                        let _ = fade;"),
 ("r49","src/oscillator.rs","        [sin(phase.to_f32() * f32::TAU)].into()","        [sin((phase * F::TAU).to_f32())].into()"),
 ("r51","src/oscillator.rs","        let value = F::new(2) * phase - F::one() - polyblep(phase, delta);","        let value = F::new(2) * (phase - F::from_f32(0.5)) - polyblep(phase, delta);"),
 ("r53","src/wavetable.rs","                phase += input.at(0, i).as_array_ref()[j] * self.sample_duration;\n                phase","                phase += input.at_f32(0, (i << SIMD_S) + j) * self.sample_duration;\n                phase -= floor(phase);\n                phase"),
 ("r56","src/sequencer.rs","                if i + 1 < self.active.len() {\n                    self.active_map\n                        .insert(self.active[self.active.len() - 1].id, i);\n                }\n                self.past.push(self.active.swap_remove(i));","                let event = self.active.remove(i);\n                self.past.push(event);\n                for j in i..self.active.len() {\n                    self.active_map.insert(self.active[j].id, j);\n                }"),
 ("r60","src/envelope.rs","        let output = self.value.clone();\n        self.value += &self.value_d;","        let u = delerp(self.t_0, self.t_1, self.t) as f32;\n        let output = Frame::generate(|i| lerp(self.value_0[i], self.value_1[i], u));\n        self.value += &self.value_d;"),
 ("r77","src/math.rs","    ((((T::new(70) * x - T::new(315)) * x + T::new(540)) * x - T::new(420)) * x + T::new(126))\n        * x2\n        * x2\n        * x","    let poly =\n        (((T::new(70) * x - T::new(315)) * x + T::new(540)) * x - T::new(420)) * x + T::new(126);\n    x * x2 * x2 * poly"),
 ("r78","src/math.rs","    let x = x * T::from_f64(f64::PI * 0.5);\n    // Use Bhaskara's sine approximation.\n    T::new(16) * x * (T::from_f64(f64::PI) - x)\n        / (T::from_f64(5.0 * f64::PI * f64::PI) - T::new(4) * x * (T::from_f64(f64::PI) - x))","    // Bhaskara's sine approximation, simplified.\n    let y = x * (T::new(2) - x);\n    T::new(4) * y / (T::new(5) - y)"),
 ("r79","src/math.rs","    exp10(db / T::new(20))","    exp(db * T::from_f64(core::f64::consts::LN_10 / 20.0))"),
 ("r80","src/math.rs","    log10(gain) * T::new(20)","    log(gain) * T::from_f64(20.0 / core::f64::consts::LN_10)"),
]
D = "/tmp/refac"
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
sh(f"mkdir -p {D}/repo {D}/verif; rm -rf {D}/repo/src; cd /repo && git archive HEAD | tar x -C {D}/repo; cp /repo/Cargo.lock {D}/repo/; rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude seeded --exclude .git /verif/ {D}/verif/; mkdir -p {D}/verif/evidence {D}/verif/replays; find {D}/verif -name Cargo.toml -not -path '*/target/*' | xargs sed -i 's#\"/repo\"#\"{D}/repo\"#'; sed -i 's#cd /repo#cd {D}/repo#' {D}/verif/run.sh")
sel = os.environ.get('EDITS')
for id, f, old, new in R:
    if old is None or (sel and id not in sel.split(',')): continue
    p = f"{D}/repo/{f}"; s = open(p).read()
    if old not in s: print(id, "not found"); continue
    open(p, 'w').write(s.replace(old, new))
b = sh(f"cd {D}/repo && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={D}/chk cargo check --offline 2>&1 | grep -A12 '^error' | head -60")
if b.stdout: print(b.stdout); sys.exit(2)
for c in sys.argv[1:] or [f"C{i:02}" for i in range(1, 35)]:
    r = sh(f"cd {D}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c}")
    t = [l for l in r.stdout.splitlines() if re.match(rf"{c} .*\[", l)]
    print(c, r.returncode, (t[0] if t else '')[:300], r.stderr[-600:] if r.returncode not in (0, 1) else '', flush=True)
