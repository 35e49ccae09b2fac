#!/usr/bin/env python3
"""run.py prep | run [SEED] [COUNT] [REGEX]: mutant schemata. `prep` rewrites a copy of /repo's sources so that every change can be switched on by
the environment variable VM, drops those that do not compile, and builds the checks against it once. `run` tries random mutants against
the checks of their file, with a part of the cases, and appends to OUT (default /tmp/sch/results.tsv)."""
import subprocess, sys, os, re, json, random, queue, threading
D = '/tmp/sch'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=f'{D}/target')
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
def rewrite():
    r = sh(f"/tmp/schemata/release/schemata /repo/src {D}/repo/src {D}/skip.txt")
    assert r.returncode == 0, r.stderr[-2000:]
    open(f'{D}/list.tsv', 'w').write(r.stdout)
    p = f'{D}/repo/src/lib.rs'; s = open(p).read()
    i = s.rindex('#[inline] pub(crate) fn vm')
    open(p, 'w').write(s[:i] + '''#[inline] pub(crate) fn vm(i: u32) -> bool { let v = VM.load(core::sync::atomic::Ordering::Relaxed); if v == u32::MAX { vm_init() == i } else { v == i } }
#[cold] fn vm_init() -> u32 { extern crate std; let v = std::env::var("VM").ok().and_then(|s| s.parse().ok()).unwrap_or(0); VM.store(v, core::sync::atomic::Ordering::Relaxed); v }
static VM: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(u32::MAX);
''')
def prep():
    sh(f"rm -rf {D}/repo {D}/verif; mkdir -p {D}/repo {D}/verif; cd /repo && git archive HEAD | tar x -C {D}/repo; cp /repo/Cargo.lock {D}/repo/; rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude seeded --exclude .git /verif/ {D}/verif/; mkdir -p {D}/verif/evidence {D}/verif/replays; find {D}/verif -name Cargo.toml -not -path '*/target/*' | xargs sed -i 's#\"/repo\"#\"{D}/repo\"#'")
    p = f'{D}/verif/harness/core/src/engine.rs'; s = open(p).read()
    s = s.replace('HANG_MS: u64 = 150_000', 'HANG_MS: u64 = 15_000')
    a = 'if let Err(e) = r {\n                            let mut f'
    assert a in s
    s = s.replace(a, 'if let Err(e) = r {\n                            println!("VIOLATION {} {} [{}] {}", check.id, sub.name, e.sig, e.msg); std::process::exit(1);\n                            let mut f', 1)
    open(p, 'w').write(s)
    skip = set()
    if os.path.exists(f'{D}/skip.txt'): skip = set(open(f'{D}/skip.txt').read().split())
    for it in range(60):
        open(f'{D}/skip.txt', 'w').write(' '.join(skip))
        rewrite()
        r = sh(f"cd {D}/repo && cargo check --offline --lib --message-format=json")
        if r.returncode == 0: break
        bad = set()
        cache = {}
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except Exception: continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            sp = m['message']['spans'] + [x for c in m['message']['children'] for x in c['spans']]
            for x in sp:
                f = f"{D}/repo/{x['file_name']}" if not x['file_name'].startswith('/') else x['file_name']
                if not os.path.exists(f): continue
                b = cache.setdefault(f, open(f, 'rb').read())
                pre = b[:x['byte_end']]
                k = re.findall(rb'crate :: vm \((\d+)u32\)', pre)
                if k: bad.add(k[-1].decode())
                inner = re.findall(rb'crate :: vm \((\d+)u32\)', b[x['byte_start']:x['byte_end']])
                if len(inner) <= 3: bad |= {q.decode() for q in inner}
                break
        print(it, 'errors', len(bad), flush=True)
        if not (bad - skip): print(r.stdout[-3000:]); sys.exit('stuck')
        skip |= bad
    print('compiles;', sum(1 for _ in open(f'{D}/list.tsv')), 'mutants', flush=True)
    r = sh(f"cd {D}/verif/harness && cargo build --release --offline --locked --bins")
    print(r.stderr[-600:])
CH = {
 'adsr': 'C25', 'audionode': 'C03,C32,C11', 'audiounit': 'C32,C11,C12', 'biquad': 'C28,C11', 'biquad_bank': 'C28,C01', 'buffer': 'C23,C01',
 'combinator': 'C33,C03,C13,C32', 'delay': 'C16,C27,C11,C12', 'dynamics': 'C17,C30,C18', 'envelope': 'C25', 'feedback': 'C27,C11', 'fft': 'C24', 'filter': 'C28,C18,C11',
 'fir': 'C28,C11,C16', 'follow': 'C18', 'granular': 'C29,C02', 'lib': 'C21,C23', 'math': 'C21,C29', 'moog': 'C28', 'net': 'C04,C07,C05,C06,C08',
 'noise': 'C29,C22', 'oscillator': 'C22,C33', 'oversample': 'C26,C12', 'pan': 'C34,C11', 'prelude': 'C33,C34,C27,C16', 'read': 'C15', 'realnet': 'C07', 'realseq': 'C10', 'resample': 'C26',
 'resynth': 'C24,C12', 'reverb': 'C34', 'rez': 'C28', 'ring': 'C30', 'sequencer': 'C09,C10,C19', 'setting': 'C13', 'shape': 'C20', 'shared': 'C30', 'signal': 'C12,C11', 'slot': 'C08',
 'snoop': 'C30', 'svf': 'C28,C11,C13', 'system': 'C30', 'vertex': 'C08,C04', 'wave': 'C14,C32', 'wavetable': 'C22', 'write': 'C15' }
FN = {'reset': 'C02', 'set_sample_rate': 'C31', 'allocate': 'C19', 'set': 'C13', 'ping': 'C29', 'set_hash': 'C29', 'route': 'C11,C12', 'process': 'C01'}
ALL = ['C01', 'C02', 'C03', 'C31', 'C32', 'C13', 'C29', 'C35', 'C19']
def run(seed, count, rx):
    ms = [l.rstrip('\n').split('\t') for l in open(f'{D}/list.tsv')]
    ms = [m for m in ms if m[1] != 'prelude' and re.search(rx, '\t'.join(m[1:]))]
    random.Random(seed).shuffle(ms)
    out = open(os.environ.get('OUT', f'{D}/results.tsv'), 'a')
    done = {l.split('\t')[1] for l in open(out.name)}
    q = queue.Queue()
    for m in ms[:count]:
        if m[0] not in done: q.put(m)
    lock = threading.Lock()
    scale = os.environ.get('SCALE', '0.15')
    def work(k):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            cs = []
            for c in FN.get(m[3], '').split(',') + CH.get(m[1], '').split(',') + ALL:
                if c and c not in cs: cs.append(c)
            res = 'MISSED'
            for c in cs:
                e = dict(ENV, VM=m[0], VERIF_SEED='1', VERIF_TIER='quick', VERIF_ROOT=f'{D}/verif', VERIF_THREADS='3')
                r = subprocess.run(['timeout', '-k', '2', '100', f'{D}/target/release/{c.lower()}', '--scale', scale], capture_output=True, text=True, env=e)
                if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'CAUGHT ' + c; break
                if r.returncode not in (0, 1): res = f'BROKEN {c} {r.returncode}'; break
            with lock: out.write('\t'.join([res] + m) + '\n'); out.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('WORKERS', '3')))]
    [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1] == 'prep': prep()
else: run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else '')
