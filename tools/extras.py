"""Explorations besides the behaviours of the whole system (see plans.EXTRA)."""
import glob, json, os, shutil, subprocess, sys

MIN_TICK, MAX_TICK = -221818, 221818


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def start_ticks(work, here, seed, tier):
    """The whole table of ticks and prices, in slices."""
    n = 8
    out = os.path.join(work, 'ticks')
    os.makedirs(out)
    size = (MAX_TICK - MIN_TICK + n) // n
    procs = []
    for i in range(n):
        d = os.path.join(work, 'spec_ticks%d' % i)
        shutil.copytree(os.path.join(here, 'spec'), d)
        lo = MIN_TICK + i * size
        hi = min(MAX_TICK, lo + size - 1)
        open(os.path.join(d, 'main.qnt'), 'w').write('module main { import ticks(FROM=%d, LAST=%d).* from "./ticks" }\n' % (lo, hi))
        log = open(os.path.join(d, 'log'), 'w')
        p = subprocess.Popen(['quint', 'run', 'main.qnt', '--main', 'main', '--backend', 'typescript', '--verbosity', '1',
                              '--max-samples', '1', '--n-traces', '1', '--max-steps', str(size // 256 + 2), '--seed', str(seed * 31 + i),
                              '--invariant', 'good', '--out-itf', os.path.join(out, 't%d_{seq}.itf.json' % i)],
                             cwd=d, stdout=log, stderr=subprocess.STDOUT, env=dict(os.environ, NODE_OPTIONS='--max-old-space-size=3000'),
                             start_new_session=True)
        procs.append((p, os.path.join(d, 'log')))
    return procs


def finish_ticks(procs, binary, work):
    for p, log in procs:
        try:
            p.wait(300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            fail('the tick table was not finished')
        t = open(log).read()
        if '[violation]' in t or p.returncode != 0:
            fail('the tick table of the specification is wrong:\n' + t[-3000:])
    out = os.path.join(work, 'ticks.json')
    try:
        r = subprocess.run([binary, 'ticks', os.path.join(work, 'ticks'), out], capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        r = None
    if r is None or r.returncode != 0:
        return {}, [(None, {'extra': ['C21'], 'step': 0, 'text': 'the conversion of some tick or price does not return'})]
    x = json.load(open(out))
    v = []
    if x['wrong']:
        v.append((None, {'extra': ['C21'], 'step': 0, 'wrong': x['wrong'], 'first': x['first'],
                         'text': '%d wrong conversions, first: %s' % (x['wrong'], json.dumps(x['first'][:3]))}))
    if x['prices'] < MAX_TICK - MIN_TICK + 1:
        fail('the tick table is incomplete: %d' % x['prices'])
    return {'tick_prices_compared': x['prices'], 'price_ticks_compared': x['ticks'], 'exhaustive_over_ticks': True,
            'states': x['prices'], 'transitions': x['ticks'],
            'traces': len(glob.glob(os.path.join(work, 'ticks', '*')))}, v


# ---------------------------------------------------------------- calculations (calc.qnt)
def owners(b):
    """The properties that a wrong calculation belongs to."""
    amounts = b['what'] in ('segment', 'worth0', 'worth1', 'deposit', 'credit', 'redeem', 'ratio')
    return of_rule(b) | ({'C30'} if amounts else set())


def of_rule(b):
    w, refused = b['what'], not b['specification'] or not b['program']
    fs = set(b['fields'])
    if w == 'segment':
        return {'C04', 'C05'} if refused or 0 in fs else {'C05'}
    if w in ('worth0', 'worth1'):
        return {'C07'} if b['arg'][3] == '1' else {'C08'}
    if w == 'ratio':
        return set()
    if w == 'redeem':
        return {'C08', 'C24'}
    if w == 'deposit':
        return {'C24'}
    if w == 'observation':
        return {'C14'}
    if w in ('bitmap', 'place'):
        return {'C03'}
    if w in ('reference', 'crossing'):
        o = {'C02'} if refused or fs & {0, 1} else set()
        return o | ({'C03'} if 7 in fs else set()) | ({'C06'} if fs & {2, 3} else set()) | ({'C25'} if fs & {4, 5, 6} else set())
    if w == 'growth':
        return {'C06'}
    return {'C06'} if refused or fs & {1, 2, 3, 4} else {'C08'}      # credit


def start_calc(work, here, seed, tier):
    n, steps = (8, 3000) if tier == 'thorough' else (2, 250)
    out = os.path.join(work, 'calc')
    os.makedirs(out)
    procs = []
    for i in range(n):
        d = os.path.join(work, 'spec_calc%d' % i)
        shutil.copytree(os.path.join(here, 'spec'), d)
        log = open(os.path.join(d, 'log'), 'w')
        p = subprocess.Popen(['quint', 'run', 'calc.qnt', '--main', 'calc', '--backend', 'typescript', '--verbosity', '1',
                              '--max-samples', '1', '--n-traces', '1', '--max-steps', str(steps), '--seed', str(seed * 1009 + i),
                              '--invariant', 'good', '--out-itf', os.path.join(out, 'c%d_{seq}.itf.json' % i)],
                             cwd=d, stdout=log, stderr=subprocess.STDOUT, env=dict(os.environ, NODE_OPTIONS='--max-old-space-size=3000'),
                             start_new_session=True)
        procs.append((p, os.path.join(d, 'log')))
    return procs


def finish_calc(procs, build, work, pid):
    for p, log in procs:
        try:
            p.wait(1200)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            fail('the calculations were not finished')
        t = open(log).read()
        if '[violation]' in t or p.returncode != 0:
            fail('a calculation of the specification is wrong:\n' + t[-3000:])
    binary = build('calc')
    if binary is None:
        print('note: the signatures of internal calculations have changed; they are judged by whole operations only')
        return {}, []
    out = os.path.join(work, 'calc.json')
    try:
        r = subprocess.run([binary, os.path.join(work, 'calc'), out], capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        r = None
    if r is None or r.returncode != 0:
        print('note: the calculations could not be compared: ' + ('no end' if r is None else r.stderr[-500:]))
        return {}, []
    x = json.load(open(out))
    mine = [b for b in x['bad'] if pid in owners(b)]
    v = []
    if mine:
        v.append((None, {'extra': [pid], 'step': 0, 'wrong': len(mine), 'first': mine[:20],
                         'text': '%d wrong calculations, first: %s' % (len(mine), json.dumps(mine[:3]))}))
    rows = {k: n for k, n in x['rows'].items()}
    return {'calculations_compared': rows, 'states': sum(rows.values()), 'transitions': sum(rows.values()), 'traces': len(procs)}, v


def start(x, work, here, seed, tier):
    return {'ticks': start_ticks, 'calc': start_calc}[x](work, here, seed, tier)


def finish(x, h, binary, build, work, pid):
    return finish_ticks(h, binary, work) if x == 'ticks' else finish_calc(h, build, work, pid)
