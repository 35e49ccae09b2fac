#!/usr/bin/env python3
"""automut.py SEED [FILE...]: random mutants of /repo's sources, run against the checks of the file, in scratch copies.
env WORKERS, MUT (scratch directory prefix), OUT (results file), PER (code lines per mutant)."""
import subprocess, sys, os, queue, threading, re, random
CH = {
 'adsr': 'C25', 'audionode': 'C03,C01,C02,C11,C12,C13,C31,C19', 'audiounit': 'C32,C11,C12', 'biquad': 'C28,C11', 'biquad_bank': 'C28,C01', 'buffer': 'C23,C01',
 'combinator': 'C03,C33,C13,C32', 'delay': 'C16,C11', 'dynamics': 'C17,C30,C18', 'envelope': 'C25', 'feedback': 'C27,C01', 'fft': 'C24', 'filter': 'C28,C11',
 'fir': 'C28,C11', 'follow': 'C18', 'gen': 'C29,C22', 'granular': 'C29,C02', 'hacker': 'C33', 'hacker32': 'C33', 'lib': 'C21', 'math': 'C21,C29', 'moog': 'C28', 'net': 'C04,C07,C05,C06,C08,C31,C19',
 'noise': 'C29,C22', 'oscillator': 'C22,C33', 'oversample': 'C26', 'pan': 'C34,C11', 'prelude': 'C33,C34', 'read': 'C15', 'realnet': 'C07', 'realseq': 'C10', 'resample': 'C26',
 'resynth': 'C24,C12', 'reverb': 'C34', 'rez': 'C28', 'ring': 'C30', 'sequencer': 'C09,C10,C19', 'setting': 'C13', 'shape': 'C20', 'shared': 'C30', 'signal': 'C12,C11', 'slot': 'C08',
 'snoop': 'C30', 'svf': 'C28,C11', 'system': 'C30', 'vertex': 'C04,C08', 'wave': 'C14,C32', 'wavetable': 'C22', 'write': 'C15' }
FALL = ['C01', 'C02', 'C31']
seed = int(sys.argv[1]); files = sys.argv[2:] or sorted(CH)
W = int(os.environ.get('WORKERS', '3')); PER = int(os.environ.get('PER', '25'))
OPS = [
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r'\b0\.\.', '1..'), (r'\.\.=', '..'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r'\+= ', '-= '), (r'-= ', '+= '), (r'\*= ', '= '), (r'\bself\.x\b', 'self.y'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\b0\.5\b', '0.51'), (r'\b1\.0\b', '1.01'), (r'\b0\.0\b', '0.01'), (r'\b2\.0\b', '1.99'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '3'),
 (r'(\d\.\d+)', None), (r'\bif (.*) \{$', r'if false && (\1) {'), (r'\bif (.*) \{$', r'if true || (\1) {'), (r'^(\s*)(self\.[^;]*;)$', r'\1'), (r'^(\s*)([a-z_.\[\]]+ (=|\+=|\*=) [^;]*;)$', r'\1'), (r'sin\(', 'cos('), (r'\bsample_rate\b', '44100.0'), (r'\.reset\(\)', '.inputs()'), (r'\bas usize\b', 'as u16 as usize'), (r'\bround\(', 'floor('), (r'\bfloor\(', 'ceil('),
]
def mutants(f):
    s = open(f'/repo/src/{f}.rs').read().split('\n')
    rng = random.Random(f'{seed} {f}')
    cand = []
    test = False
    for i, l in enumerate(s):
        t = l.strip()
        if t.startswith('#[cfg(test)]'): break
        if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'pub trait', 'pub struct', 'struct', 'pub enum', 'where', 'type ', 'assert', 'pub fn', 'fn ', 'const ID', 'extern')): continue
        if 'where' in t or 'Size<' in t: continue
        ms = []
        for a, b in OPS:
            for m in re.finditer(a, l.split('//')[0]):
                if b is None:
                    r = repr(float(m.group(1)) * 1.03 + 0.001); n = l[:m.start()] + r + l[m.end():]
                else: n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: ms.append((a, n))
        if ms: cand.append((i, ms))
    k = max(5, min(40, len(cand) // PER if f not in ('hacker', 'hacker32', 'prelude') else len(cand) // (PER * 2)))
    k = min(k, len(cand))
    out = []
    for i, ms in rng.sample(cand, k):
        a, n = rng.choice(ms)
        t = list(s); t[i] = n
        out.append((f'{f}:{i+1}', f, s[i].strip(), n.strip(), '\n'.join(t)))
    return out
q = queue.Queue()
allm = [m for f in files for m in mutants(f)]
random.Random(seed).shuffle(allm)
for m in allm: q.put(m)
print(len(allm), 'mutants', flush=True)
out = open(os.environ.get('OUT', '/tmp/automut.out'), 'a')
lock = threading.Lock()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prep(d):
    sh(f"mkdir -p {d}/repo {d}/verif; cd /repo && git archive HEAD | tar x -C {d}/repo; cp /repo/Cargo.lock {d}/repo/; rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude seeded --exclude .git /verif/ {d}/verif/; mkdir -p {d}/verif/evidence {d}/verif/replays; find {d}/verif -name Cargo.toml -not -path '*/target/*' | xargs sed -i 's#\"/repo\"#\"{d}/repo\"#'; sed -i 's#cd /repo#cd {d}/repo#' {d}/verif/run.sh")
def work(k):
    d = f"/tmp/{os.environ.get('MUT','amut')}{k}"
    prep(d)
    while True:
        try: id, f, old, new, text = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/src/{f}.rs"
        open(p, 'w').write(text)
        r = sh(f"cd {d}/repo && RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={d}/chk cargo check --offline --lib")
        res = 'NOCOMPILE'
        if r.returncode == 0:
            res = 'MISSED'
            for c in CH[f].split(',') + [x for x in FALL if x not in CH[f]]:
                r = sh(f"cd {d}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 300 ./run.sh {c}")
                if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'CAUGHT ' + c; break
                if r.returncode not in (0, 1): res = f'BROKEN {c} rc={r.returncode}'; break
        open(p, 'w').write(open(f"/repo/src/{f}.rs").read())
        with lock:
            line = f"{res} {id}: {old}  ==>  {new}"
            out.write(line + '\n'); out.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
out.write('END\n')
