#!/usr/bin/env python3
"""Planted bugs: assemble seeded/<id> and try it.

    seed.py try <id>...     demo on the unchanged tree and with the patch, the stable tests, the check of its property
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'programs/core/src/'


def make(name, prop, edits, needs, breaks, demo):
    """edits: [(file below programs/core/src, old, new)]"""
    d = os.path.join(HERE, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix='seed.')
    try:
        for side in 'ab':
            os.makedirs(os.path.join(base, side))
        files = sorted({e[0] for e in edits})
        for f in files:
            t = open(os.path.join('/repo', SRC, f)).read()
            for side in 'ab':
                p = os.path.join(base, side, SRC, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                u = t
                if side == 'b':
                    for g, old, new in edits:
                        if g == f:
                            assert u.count(old) == 1, (name, f, u.count(old), old)
                            u = u.replace(old, new)
                open(p, 'w').write(u)
        r = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=base, capture_output=True, text=True).stdout
        lines = [l for l in r.splitlines(True) if not l.startswith('diff ')]
        open(os.path.join(d, 'patch.diff'), 'w').write(''.join(l.split('\t')[0] + '\n' if l.startswith(('---', '+++')) else l for l in lines))
    finally:
        shutil.rmtree(base)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.rs'), 'w').write('use crate::sim::*;\n#[allow(unused_imports)]\nuse serde_json::json;\n\n' + demo.strip() + '\n')
    kit(d)


def kit(d):
    for f in ['main.rs', 'sim.rs', 'Cargo.toml', 'Cargo.lock', 'demo.sh']:
        shutil.copy(os.path.join(HERE, 'tools/kit', f), d)
    for f in ['ops.rs', 'vm.rs', 'world.rs']:
        shutil.copy(os.path.join(HERE, 'harness/src', f), d)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def attempt(name, check=True):
    d = os.path.join(HERE, 'seeded', name)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    assert sh('git -C /repo status --short').stdout == '', 'the tree is not clean'
    out = {'id': name, 'property': prop}
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    out['demo'] = r.returncode
    out['demo_says'] = r.stdout[-400:].strip()
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            out['apply'] = a.stderr
            return out
        b = sh('bash /opt/vp/build.sh')
        out['build'] = b.returncode
        sh('bash /opt/vp/test.sh /tmp/seed_tests.json')
        out['tests'] = broken('/tmp/seed_tests.json')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        out['patched'] = r.returncode
        out['patched_says'] = r.stdout[-400:].strip()
        if check:
            r = sh('python3 check.py ' + prop, cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            out['check'] = r.returncode
            out['violations'] = r.stdout.count('VIOLATION property=' + prop)
            out['tail'] = r.stdout[-1500:]
    finally:
        sh('git -C /repo checkout -- .')
    return out


def broken(f):
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(f))
    return compare(base, got)


def compare(base, got):
    return sorted(set(base['stable']) - set(got['passed']))


if __name__ == '__main__':
    check = '--no-check' not in sys.argv
    for n in [x for x in sys.argv[2:] if not x.startswith('--')]:
        o = attempt(n, check)
        good = o.get('demo') == 0 and o.get('build') == 0 and o.get('tests') == [] and o.get('patched') not in (0, None)
        print('%-28s %s demo %s/%s tests %s check %s (%s)' % (n, 'valid' if good else 'INVALID', o.get('demo'), o.get('patched'), o.get('tests'), o.get('check'), o.get('violations')))
        print('   ', o.get('patched_says'))
        if not good or (check and o.get('check') != 1) or '-v' in sys.argv:
            print(json.dumps(o, indent=1).replace('\\n', '\n'))
        sys.stdout.flush()
