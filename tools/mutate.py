#!/usr/bin/env python3
"""mutate.py FILE.py [ID...]: runs the mutants of a list against their checks in scratch copies (4 workers).
A mutant: (id, 'C01[,C02]', 'src/x.rs', old text, new text[, occurrence from 0])."""
import subprocess, sys, os, queue, threading, re
W = int(os.environ.get('WORKERS', '3'))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
ms = [m for m in ns['M'] if not want or m[0] in want]
out = open(sys.argv[1].replace('.py', '.out'), 'a')
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prep(d):
    sh(f"mkdir -p {d}/repo {d}/verif; cd /repo && git archive HEAD | tar x -C {d}/repo; cp /repo/Cargo.lock {d}/repo/; rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude seeded --exclude .git /verif/ {d}/verif/; mkdir -p {d}/verif/evidence {d}/verif/replays; find {d}/verif -name Cargo.toml -not -path '*/target/*' | xargs sed -i 's#\"/repo\"#\"{d}/repo\"#'; sed -i 's#cd /repo#cd {d}/repo#' {d}/verif/run.sh")
def work(k):
    d = f"/tmp/{os.environ.get("MUT","mut")}{k}"
    prep(d)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        id, props, file, old, new = m[:5]
        n = m[5] if len(m) > 5 else None
        p = f"{d}/repo/{file}"
        s = open(f"/repo/{file}").read()
        c = s.count(old)
        if c == 0 or (c > 1 and n is None):
            with lock: print(f"{id}: text found {c} times", flush=True)
            continue
        if n is None: t = s.replace(old, new)
        else:
            parts = s.split(old)
            t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, 'w').write(t)
        res = []
        if os.environ.get('TESTS'):
            r = sh(f"cd {d}/repo && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c '\\.\\.\\. FAILED'")
            res.append(f"tests failing {r.stdout.strip()}")
        for c in props.split(','):
            r = sh(f"cd {d}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c}")
            tail = [l for l in r.stdout.splitlines() if re.match(rf"{c} .*\[", l)]
            e = '' if r.returncode in (0, 1) else (r.stderr[-300:] if 'error' in r.stderr else '')
            res.append(f"{c} {'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d' % r.returncode} {tail[0][:130] if tail else ''}{e}")
            if os.environ.get('FIRST') and 'CAUGHT' in res[-1]: break
        open(p, 'w').write(s)
        with lock:
            line = f"{id}: " + ' || '.join(res)
            print(line, flush=True); out.write(line + '\n'); out.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
