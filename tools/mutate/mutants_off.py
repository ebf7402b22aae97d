#!/usr/bin/env python3
"""the same as mutants.py for the off-chain worker (/repo/ampd), in /tmp/mo: build, run [PATTERN], report"""
import mutants as m, os, sys, re, json, subprocess, shutil, glob, time
W = m.W = '/tmp/mo'
m.FIRST = {}
ENV = 'source /verif/harness/env.sh; export CARGO_TARGET_DIR=/tmp/mo/target RUSTFLAGS="-Awarnings --cfg tracing_unstable"; '
sh = m.sh
def build():
    os.makedirs(W, exist_ok=True)
    sh(f'rm -rf {W}/verif; mkdir -p {W}/verif/harness {W}/repo; cp -a /verif/harness/src {W}/verif/harness/; cp -a /verif/offchain {W}/verif/; rm -rf {W}/verif/offchain/target')
    p = f'{W}/verif/offchain/main.rs.in'
    s = open(p).read().replace('fn main() {', 'fn main() {\n    MUTANT.store(std::env::var("MUTANT").ok().and_then(|x| x.parse().ok()).unwrap_or(0), std::sync::atomic::Ordering::Relaxed);', 1)
    s += '''
static MUTANT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[no_mangle]
pub extern "C" fn __mutant() -> u32 { MUTANT.load(std::sync::atomic::Ordering::Relaxed) }
'''
    open(p, 'w').write(s)
    sh(f"sed -i 's/opt-level = 2/opt-level = 1/' {W}/verif/offchain/Cargo.toml")
    skip = set()
    if os.path.exists(W + '/skip'): skip = set(map(int, open(W + '/skip').read().split()))
    for rnd in range(40):
        sh(f'rm -rf {W}/repo/ampd; git -C /repo archive HEAD ampd | tar -x -C {W}/repo')
        fs = [p for p in sorted(glob.glob(f'{W}/repo/ampd/src/**/*.rs', recursive=True)) if not p.endswith('tests.rs') and not p.endswith('ampd/src/main.rs')]
        open(W + '/skip', 'w').write(' '.join(map(str, sorted(skip))))
        r = subprocess.run(['/tmp/mutate_target/release/mutate', W + '/skip', W + '/list'] + fs, capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        sh(f'cd {W}/verif/offchain && ./link.sh {W}/repo')
        r = sh(ENV + f'cd {W}/verif/offchain && cargo build --release --offline --message-format json 2>{W}/err')
        bad = set(); other = []
        for l in r.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error': continue
            for s in [x for x in j['message']['spans'] if x['is_primary']] or j['message']['spans']:
                f = s['file_name']
                if not f.startswith('/'): f = f'{W}/verif/offchain/' + f
                if not os.path.exists(f): other.append((s['file_name'], j['message']['message'])); continue
                t = open(f, 'rb').read(); a, b = s['byte_start'], s['byte_end']
                inside = [int(x) for x in re.findall(rb'__m\((\d+)u32\)', t[a:b])]
                before = [(x.start(), int(x.group(1))) for x in re.finditer(rb'__m\((\d+)u32\)', t[:a])]
                if before and a - before[-1][0] < 1500: bad.add(before[-1][1])
                elif inside: bad.add(inside[0])
                else: other.append((f, s['line_start'], j['message']['message']))
                if any(w in j['message']['message'] for w in ['type annotations', 'borrow', 'moved', 'Send', 'future']): bad |= set(inside[:3])
        if not bad:
            print('round', rnd, len(open(W + '/list').read().splitlines()), 'mutants;', other[:5], open(W + '/err').read()[-600:]); return
        print('round', rnd, 'dropping', len(bad), other[:2], flush=True)
        skip |= bad
NEAR = [('handlers/multisig', 'C35'), ('handlers/end_block', 'C37'), ('worker_set', 'C34'), ('handlers', 'C33 C34'), ('evm', 'C33 C34'), ('sui', 'C33 C34'), ('queue', 'C36'), ('broadcaster', 'C39'), ('event', 'C37'), ('block', 'C37'), ('commands', 'C41'), ('config', 'C41'), ('state', 'C40 C41'), ('tofnd', 'C35 C39'), ('lib.rs', 'C40'), ('tm_client', 'C37')]
def one(line, scale):
    n, f, fn, kind, old, _, new = (line.split('\t') + [''] * 7)[:7]
    first = [c for k, v in NEAR if k in f for c in v.split()]
    order = list(dict.fromkeys(first + [f'C{i}' for i in range(33, 42) if i != 38]))
    root = f'{W}/roots/{n}'; os.makedirs(root + '/evidence', exist_ok=True); shutil.copy('/verif/known-findings.json', root)
    t = time.time(); res = None
    for c in order:
        e = dict(os.environ, MUTANT=n, PBT_ROOT=root, PBT_SCALE=str(scale), VERIF_SEED='1', RAYON_NUM_THREADS='3')
        try:
            r = subprocess.run([W + '/target/release/pbt-offchain', c], capture_output=True, text=True, env=e, timeout=150)
            if r.returncode: res = (c, r.returncode); break
        except subprocess.TimeoutExpired:
            res = (c, 'timeout'); break
    shutil.rmtree(root, ignore_errors=True)
    return {'n': int(n), 'file': f.replace(W + '/repo/', ''), 'fn': fn, 'kind': kind, 'old': old, 'new': new, 'found': res, 's': round(time.time() - t)}
m.one = one
if __name__ == '__main__':
    {'build': lambda a: build(), 'run': m.run, 'report': m.report}[sys.argv[1]](sys.argv[2:])
