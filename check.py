#!/usr/bin/env python3
"""Decide one property: explore the specification, replay every behaviour into the real program, judge.

    check.py <property> [--tier quick|thorough] [--keep DIR]

exit 0: the property held on everything explored; exit 1: a VIOLATION line; exit 2: the check could not run.
"""
import argparse, collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import judge, plans

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
TARGET = os.path.join(BUILD, 'target')
CORES = min(8, os.cpu_count() or 8)


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


# ---------------------------------------------------------------- the implementation
def source_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'programs')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml')):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def borrow_dependencies():
    """The repository's own build has compiled most crates the harness depends on: start from a copy of those.

    Only a short cut: cargo builds whatever is missing or differs.
    """
    theirs, ours = os.path.join(REPO, 'target', 'debug'), os.path.join(TARGET, 'debug')
    if os.path.isdir(ours):
        return
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.isdir(theirs):
        return
    part = tempfile.mkdtemp(dir=TARGET)
    for d in ['deps', '.fingerprint', 'build']:
        if os.path.isdir(os.path.join(theirs, d)):
            shutil.copytree(os.path.join(theirs, d), os.path.join(part, d), symlinks=True, ignore_dangling_symlinks=True,
                            ignore=shutil.ignore_patterns('cyclos*', 'libcyclos*'))
    os.rename(part, ours)


def start_build():
    """Start building the harness against the current tree (whatever the time stamps say)."""
    borrow_dependencies()
    stamp, h = os.path.join(BUILD, 'stamp'), source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h:
        fp = os.path.join(TARGET, 'debug', '.fingerprint')
        for f in os.listdir(fp) if os.path.isdir(fp) else []:
            if f.startswith(('cyclos-core', 'cyclos_core', 'cykura-harness')):
                shutil.rmtree(os.path.join(fp, f))
        if os.path.exists(stamp):
            os.unlink(stamp)
    crate = os.path.join(HERE, 'harness')
    if REPO != '/repo':
        # (development: another copy of the repository)
        crate = os.path.join(BUILD, 'harness')
        shutil.copytree(os.path.join(HERE, 'harness'), crate, dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
        m = os.path.join(crate, 'Cargo.toml')
        toml = open(m).read().replace('/repo/programs', REPO + '/programs')
        open(m, 'w').write(toml)
    return cargo(crate, 'replay'), stamp, h, crate


def cargo(crate, name, *more):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', RUSTC_WRAPPER='')
    log = open(os.path.join(BUILD, 'build_%s.log' % name), 'w')
    return subprocess.Popen(['cargo', 'build', '--offline', '--locked', '--bin', name, *more], cwd=crate,
                            env=env, stdout=log, stderr=subprocess.STDOUT)


def finish_build(b):
    p, stamp, h, crate = b
    if p.wait() != 0 and cargo(crate, 'replay', '--no-default-features').wait() != 0:
        fail('the harness does not build:\n' + open(os.path.join(BUILD, 'build_replay.log')).read()[-3000:])
    open(stamp, 'w').write(h)

    def other(name):
        return os.path.join(TARGET, 'debug', name) if cargo(crate, name).wait() == 0 else None
    return os.path.join(TARGET, 'debug', 'replay'), other


# ---------------------------------------------------------------- the specification
def spec_dir(work, name, profiles, ghosts):
    d = os.path.join(work, 'spec_' + name)
    shutil.copytree(os.path.join(HERE, 'spec'), d)
    main = 'machine' if ghosts else 'driver'
    open(os.path.join(d, 'main.qnt'), 'w').write(
        'module main { import %s(PROFILES = Set(%s)).* from "./%s" }\n' % (main, ', '.join(map(str, profiles)), main))
    return d


def explore(work, out, name, run, seed):
    """One simulator process writing ITF traces."""
    d = spec_dir(work, name, run['profiles'], run.get('ghosts', False))
    cmd = ['quint', 'run', 'main.qnt', '--main', 'main', '--backend', 'typescript', '--verbosity', '1',
           '--max-samples', str(run['samples']), '--n-traces', str(run['samples']), '--max-steps', str(run['steps']),
           '--seed', str(seed), '--out-itf', os.path.join(out, name + '_{seq}.itf.json')]
    if run.get('ghosts'):
        cmd += ['--invariant', 'good']
    log = open(os.path.join(d, 'log'), 'w')
    env = dict(os.environ, NODE_OPTIONS='--max-old-space-size=3000')
    return subprocess.Popen(cmd, cwd=d, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True), os.path.join(d, 'log'), run


def wait_all(procs, limit):
    end = time.time() + limit
    ok, checked = 0, 0
    for p, log, run in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            print('note: an exploration was cut off by its time limit')
            continue
        t = open(log).read()
        if '[violation]' in t:
            fail('the specification itself violates a property:\n' + t[-3000:])
        if p.returncode != 0:
            print('note: an exploration failed:\n' + t[-1500:])
            continue
        ok += 1
        checked += 1 if run.get('ghosts') else 0
    return ok, checked


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep')
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, int(os.environ.get('VERIF_SEED', '1'))
    if pid not in plans.PLANS:
        fail('unknown property ' + pid)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='work.', dir=BUILD)
    try:
        code = decide(pid, tier, seed, work, a.keep, t0)
    finally:
        shutil.rmtree(work)
    sys.exit(code)


def replay(binary, out, res):
    r = subprocess.run([binary, 'traces', out, res, str(CORES)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        return json.load(open(res))
    if r.returncode > 0:
        fail('the replay failed: ' + r.stderr[-2000:])
    # the program took the process down (memory or stack exhausted): find where
    files = []
    for f in sorted(os.listdir(out)):
        d = os.path.join(out, 'one')
        os.makedirs(d)
        shutil.copy(os.path.join(out, f), d)
        r = subprocess.run([binary, 'traces', d, res, '1'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, VERIF_VERBOSE='1'))
        if r.returncode == 0:
            x = json.load(open(res))[0]
        else:
            l = [y for y in r.stderr.splitlines() if y.startswith('STEP ')][-1].split(' ', 2)
            tx = json.loads(l[2])
            x = {'steps': int(l[1]), 'cover': {}, 'hashes': [], 'divergences': [{
                'step': int(l[1]), 'tag': tx['op']['tag'], 'tx': tx, 'sub': ':'.join(tx['sub']), 'why': '', 'want': True, 'ok': False,
                'err': 'the program crashes', 'fields': [], 'events': None, 'real': None}]}
        x['file'] = os.path.join(out, f)
        files.append(x)
        shutil.rmtree(d)
        if len([1 for y in files if y['divergences']]) > 3:
            break
    return files


def decide(pid, tier, seed, work, keep, t0):
    plan = plans.plan(pid, tier, CORES)
    out = os.path.join(work, 'itf')
    os.makedirs(out)
    build = start_build()
    procs = [explore(work, out, 'r%d' % i, run, 1000003 * seed + 7919 * i + plans.salt(pid)) for i, run in enumerate(plan['runs'])]
    extra = [judge.start_extra(x, work, HERE, seed, tier) for x in plan.get('extra', [])]
    binary, other = finish_build(build)
    ok, checked = wait_all(procs, plan['limit'])
    if procs and ok == 0:
        fail('no exploration of the specification finished')
    res = os.path.join(work, 'out.json')
    files = replay(binary, out, res)
    cover, own, others = collections.Counter(), [], collections.Counter()
    states = set()
    steps = 0
    for f in files:
        steps += f['steps']
        states.update(f['hashes'])
        for k, v in f['cover'].items():
            cover[k] += v
        for d in f['divergences']:
            (own.append((f['file'], d)) if judge.owns(pid, d) else others.update([judge.brief(d)]))
    ex = {}
    for h in extra:
        e, v = judge.finish_extra(h, binary, other, work, pid)
        ex.update(e)
        own += v
    if not files and not ex:
        fail('nothing was explored')
    if keep:
        shutil.copytree(work, keep, dirs_exist_ok=True)
    relevant = {k: v for k, v in sorted(cover.items()) if judge.relevant(pid, k)}
    samples = ['%s: %d times' % kv for kv in list(relevant.items())[:40]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states) + ex.get('states', 0), 'transitions': steps + ex.get('transitions', 0),
            'traces_validated_against_impl': len(files) + ex.get('traces', 0),
            'relevant_operations_replayed': sum(relevant.values()),
            'simulations_with_invariants': checked,
            'samples': samples or ['see the other counts'],
            **{k: v for k, v in ex.items() if k not in ('states', 'transitions', 'traces')},
        },
        'assumptions': plans.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(own),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if others:
        print('note: behaviour outside %s also differs from the specification: %s' % (pid, dict(others.most_common(5))))
    print('%s: %d traces, %d steps, %d distinct states, %.0f s' % (pid, len(files), steps, len(states), time.time() - t0))
    if not own:
        return 0
    vd = os.path.join(BUILD, 'violations', pid)
    if os.path.isdir(vd):
        shutil.rmtree(vd)
    os.makedirs(vd)
    own.sort(key=lambda x: x[1].get('step', 0))
    for i, (f, d) in enumerate(own[:5]):
        rp = os.path.join(vd, 'violation_%d.json' % i)
        if f and os.path.exists(f):
            shutil.copy(f, os.path.join(vd, 'trace_%d.itf.json' % i))
        json.dump(d, open(rp, 'w'), indent=1)
        print(judge.describe(d))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


if __name__ == '__main__':
    main()
