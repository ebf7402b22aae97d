#!/usr/bin/env python3
"""mutants.py build : scratch copy of /repo and the harness in /tmp/mu with all mutants in one binary
   mutants.py run [FROM TO] : runs the checks on every mutant, results in /tmp/mu/results.jsonl
   mutants.py report : mutants that no check finds
A development aid to find gaps in the checks; not part of any check."""
import json, os, re, subprocess, sys, shutil, glob, time
from concurrent.futures import ThreadPoolExecutor
W = '/tmp/mu'
ENV = 'source /verif/harness/env.sh; export CARGO_TARGET_DIR=/tmp/mu/target RUSTFLAGS="-Awarnings"; '
def sh(c, **k): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)
def files():
    out = []
    for d in ['contracts', 'packages/axelar-wasm-std', 'packages/report', 'packages/connection-router-api', 'packages/gateway-api']:
        for p in sorted(glob.glob(f'{W}/repo/{d}/**/src/**/*.rs', recursive=True)):
            if '/bin/' in p or '/test' in p or p.endswith('tests.rs') or p.endswith('test_utils.rs'): continue
            out.append(p)
    return out
def fresh():
    for d in ['contracts', 'packages']:
        sh(f'mkdir -p {W}/repo; cp -a --no-preserve=timestamps /repo/{d} {W}/repo/')
def build():
    shutil.rmtree(W + '/repo', ignore_errors=True); shutil.rmtree(W + '/harness', ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(f'cp /repo/Cargo.toml /repo/Cargo.lock {W}/ ; mkdir -p {W}/repo {W}/harness; cp /repo/Cargo.toml /repo/Cargo.lock {W}/repo/; cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {W}/harness/')
    sh(f"sed -i 's#\"/repo/#\"{W}/repo/#; s/opt-level = 2/opt-level = 1/' {W}/harness/Cargo.toml")
    p = f'{W}/harness/src/main.rs'
    s = open(p).read()
    s += '''
static MUTANT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[no_mangle]
pub extern "C" fn __mutant() -> u32 { MUTANT.load(std::sync::atomic::Ordering::Relaxed) }
'''
    s = s.replace('fn main() {', 'fn main() {\n    MUTANT.store(std::env::var("MUTANT").ok().and_then(|x| x.parse().ok()).unwrap_or(0), std::sync::atomic::Ordering::Relaxed);', 1)
    open(p, 'w').write(s)
    skip = set()
    if os.path.exists(W + '/skip'): skip = set(map(int, open(W + '/skip').read().split()))
    for rnd in range(60):
        sh(f'rm -rf {W}/repo/contracts {W}/repo/packages'); fresh()
        sh(f"sed -i 's/crate-type = .*/crate-type = [\"rlib\"]/' {W}/repo/contracts/*/Cargo.toml")
        open(W + '/skip', 'w').write(' '.join(map(str, sorted(skip))))
        r = subprocess.run(['/tmp/mutate_target/release/mutate', W + '/skip', W + '/list'] + files(), capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        # derive list of all packages: errors of dependencies hide those of dependents
        r = sh(ENV + f'cd {W}/harness && cargo build --release --offline --keep-going -Z unstable-options --message-format json 2>/dev/null || cargo build --release --offline --message-format json 2>{W}/err')
        bad = set()
        other = []
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            for s in [x for x in m['message']['spans'] if x['is_primary']] or m['message']['spans']:
                f = s['file_name']
                if not f.startswith('/'): f = m['manifest_path'].rsplit('/', 1)[0] + '/' + f
                if not os.path.exists(f):
                    f2 = s['file_name'] if s['file_name'].startswith('/') else None
                    other.append((s['file_name'], m['message']['message'])); continue
                t = open(f, 'rb').read()
                a, b = s['byte_start'], s['byte_end']
                inside = [int(x) for x in re.findall(rb'__m\((\d+)u32\)', t[a:b])]
                before = [(x.start(), int(x.group(1))) for x in re.finditer(rb'__m\((\d+)u32\)', t[:a])]
                if before and a - before[-1][0] < 1500: bad.add(before[-1][1])
                elif inside: bad.add(inside[0])
                else: other.append((f, s['line_start'], m['message']['message']))
                if 'type annotations' in m['message']['message'] or 'borrow' in m['message']['message'] or 'moved' in m['message']['message']:
                    bad |= set(inside[:3])
        if not bad:
            n = len(open(W + '/list').read().splitlines())
            print('round', rnd, 'no bad sites;', n, 'mutants;', other[:5], open(W + '/err').read()[-600:] if other or not os.path.exists(W + '/target/release/pbt') else '')
            return
        print('round', rnd, 'dropping', len(bad), other[:2], flush=True)
        skip |= bad
FIRST = {'connection-router': 'C01 C02 C03 C29 C30 C32', 'gateway': 'C04 C05 C38', 'voting-verifier': 'C06 C07 C08 C09 C27', 'multisig-prover': 'C17 C18 C19 C15 C16 C14 C30', 'multisig': 'C11 C12 C13 C14 C19 C32',
         'rewards': 'C20 C21 C22', 'service-registry': 'C23 C24 C25', 'nexus-gateway': 'C26 C01', 'aggregate-verifier': 'C27 C04', 'batching': 'C28', 'axelar-wasm-std': 'C10 C06 C07 C29 C31 C02 C32', 'report': 'C31', 'gateway-api': 'C04', 'connection-router-api': 'C01', 'axelar-wasm-std-derive': 'C31'}
ALL = ['C38'] + [f'C{i:02}' for i in range(1, 33)]
def crate(f): return re.search(r'/(?:contracts|packages)/([^/]+)/', f).group(1)
def one(line, scale):
    n, f, fn, kind, old, _, new = (line.split('\t') + [''] * 7)[:7]
    first = FIRST.get(crate(f), '').split()
    order = first + ([c for c in ALL if c not in first] if os.environ.get('FULL') else [])
    root = f'{W}/roots/{n}'; os.makedirs(root + '/evidence', exist_ok=True)
    shutil.copy('/verif/known-findings.json', root)
    t = time.time(); res = None
    for c in order:
        e = dict(os.environ, MUTANT=n, PBT_ROOT=root, PBT_SCALE=str(scale), VERIF_SEED='1', RAYON_NUM_THREADS='3')
        try:
            r = subprocess.run([W + '/target/release/pbt', c], capture_output=True, text=True, env=e, timeout=240)
            if r.returncode: res = (c, r.returncode); break
        except subprocess.TimeoutExpired:
            res = (c, 'timeout'); break
    shutil.rmtree(root, ignore_errors=True)
    return {'n': int(n), 'file': f.replace(W + '/repo/', ''), 'fn': fn, 'kind': kind, 'old': old, 'new': new, 'found': res, 's': round(time.time() - t)}
def run(a):
    lines = open(W + '/list').read().splitlines()
    pat = a[0] if a else ''
    done = set()
    if os.path.exists(W + '/results.jsonl'): done = {json.loads(l)['n'] for l in open(W + '/results.jsonl')}
    todo = [l for l in lines if re.search(pat, l.split('\t')[1]) and int(l.split('\t')[0]) not in done]
    print(len(todo), 'to do', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex, open(W + '/results.jsonl', 'a') as out:
        for r in ex.map(lambda l: one(l, float(os.environ.get('SCALE', '0.3'))), todo):
            out.write(json.dumps(r) + '\n'); out.flush()
def report(a):
    rs = [json.loads(l) for l in open(W + '/results.jsonl')]
    m = [r for r in rs if not r['found'] and re.search(a[0] if a else '', r['file'])]
    print(len(rs), 'run', len([r for r in rs if not r['found']]), 'survive')
    for r in m: print(r['n'], r['file'].replace('contracts/', '').replace('/src/', ':'), r['fn'], r['kind'], '|', r['old'], '=>', r['new'])
if __name__ == '__main__': {'build': lambda a: build(), 'run': run, 'report': report}[sys.argv[1]](sys.argv[2:])
