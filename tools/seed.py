#!/usr/bin/env python3
"""seed.py make [ID..] : writes /verif/seeded/<id>/ from tools/seeds/*.seed
   seed.py try  [ID..] : applies each to /repo, runs its tests, its demo (with and without) and the checks
   seed.py check ID.. [-- CHECKS..] : only applies and runs the checks

A .seed file: header lines 'key: value' (property, needs, breaks, kind), then blocks
  === FILE path      followed by  <<<< old  ==== new  >>>>   (one or more)
  === MAIN           the demonstration (main.rs, uses sys.rs)
"""
import sys, os, re, json, shutil, subprocess, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/tools/seeds/'
R = os.environ.get('SEED_REPO', '/repo')

def parse(i):
    t = open(S + i + '.seed').read()
    head, *blocks = re.split(r'^=== ', t, flags=re.M)
    d = dict(l.split(': ', 1) for l in head.strip().splitlines())
    d['edits'] = []
    for b in blocks:
        title, body = b.split('\n', 1)
        if title.startswith('FILE'):
            f = title[5:].strip()
            for m in re.finditer(r'^<<<<\n(.*?)^====\n(.*?)^>>>>$', body, flags=re.M | re.S):
                d['edits'].append((f, m.group(1), m.group(2)))
        elif title.strip() == 'MAIN':
            d['main'] = body
    return d

def clean():
    return subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip() == ''

def revert():
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])

def make(i):
    d = parse(i)
    assert clean(), 'repo not clean'
    try:
        for f, old, new in d['edits']:
            p = f'{R}/{f}'
            s = open(p).read()
            # blocks may end in blank lines, or in the middle of a line
            while s.count(old) == 0 and old.endswith('\n'):
                old = old[:-1]
                new = new[:-1] if new.endswith('\n') else new
            assert s.count(old) == 1, f'{i}: {f}: {s.count(old)} occurrences of\n{old}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    finally:
        revert()
    out = f'{V}/seeded/{i}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    if d.get('kind') == 'off':
        off = f'{V}/tools/demo-off'
        for f in ['sim.rs', 'demo.sh', 'Cargo.toml.in', 'Cargo.lock']:
            shutil.copy(f'{off}/{f}', out)
        a = open(f'{V}/offchain/src/pbt/axelar.rs').read().replace('crate::util::keys', 'super::sim::keys')
        open(out + '/axelar.rs', 'w').write(a)
        shutil.rmtree(out + '/stubs', ignore_errors=True)
        shutil.copytree(f'{V}/offchain/stubs', out + '/stubs', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        open(out + '/demo.rs', 'w').write('#[allow(unused)]\nuse crate::sim;\n' + d['main'])
    else:
        for f in ['sys.rs', 'demo.sh', 'Cargo.toml.in', 'Cargo.lock']:
            shutil.copy(f'{V}/tools/demo/{f}', out)
        open(out + '/main.rs', 'w').write('mod sys;\n#[allow(unused)]\nuse sys::*;\n' + d['main'])
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)

def demo(i):
    e = dict(os.environ, DEMO_TARGET='/tmp/demo_target')
    r = subprocess.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd=R, env=e, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def tests():
    return subprocess.run(['bash', V + '/tools/repo_tests.sh'], capture_output=True, text=True).stdout.strip()

def run_checks(ids):
    res = {}
    r = subprocess.run(['bash', V + '/build.sh'], capture_output=True, text=True)
    if r.returncode:
        return {'build': r.stderr[-1500:]}
    e = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    for c in ids:
        t = time.time()
        r = subprocess.run(['bash', V + '/check.sh', c], capture_output=True, text=True, env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res[c] = (r.returncode, v[:2], round(time.time() - t))
    return res

def apply(i):
    subprocess.run(['git', '-C', R, 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)

def record(i, **kw):
    f = S + 'results.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    d.setdefault(i, {}).update(kw)
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)

def main():
    cmd, *ids = sys.argv[1:]
    extra = []
    if '--' in ids:
        k = ids.index('--'); ids, extra = ids[:k], ids[k+1:]
    ids = ids or sorted(os.path.basename(p)[:-5] for p in glob.glob(S + '*.seed'))
    for i in ids:
        if cmd == 'make':
            make(i); print('made', i); continue
        try:
            make(i)
        except AssertionError as e:
            print('BAD SEED', e, flush=True)
            continue
        d = parse(i)
        if cmd == 'try':
            rc, log = demo(i)
            if rc: print(i, 'DEMO FAILS ON CLEAN TREE', log)
            record(i, clean=rc)
        apply(i)
        try:
            if cmd == 'try':
                t = tests()
                if t != 'passed 272 failed [] lost []':
                    print(i, 'TESTS', t[:600], flush=True)
                    if t.startswith('passed 0'):
                        print(run_checks([])); continue
                rc, log = demo(i)
                record(i, tests=t == 'passed 272 failed [] lost []', patched=rc)
                print(i, 'demo with patch: rc', rc, '|', [l for l in log.splitlines() if 'panicked' in l or 'left' in l or 'right' in l or 'error' in l][:4])
            res = run_checks([d['property']] + extra)
            record(i, found=' '.join(f'{c} ({r[1][0].split("/")[-1].split("-")[1]}, {r[2]} s)' if r[0] == 1 else f'NOT by {c}' for c, r in res.items()) if 'build' not in res else 'no build')
            print(i, 'checks', res, flush=True)
        finally:
            revert()
if __name__ == "__main__":
    main()
