#!/usr/bin/env python3
"""Mutation campaign (development only): many small changes of a copy of the program, replayed against fixed traces.

    mutate.py list <repo>                     the mutants, one JSON object per line
    mutate.py run <dir> <corpus>... [--part i/n] [--limit N] [--seed S]
                                              <dir>/repo: a copy of /repo; results go to <dir>/results.jsonl
"""
import json, os, random, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
SRC = 'programs/core/src'
SWAPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '),
         (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), (' % ', ' / '),
         (' += ', ' -= '), (' -= ', ' += '), ('mul_div_floor', 'mul_div_ceil'), ('mul_div_ceil', 'mul_div_floor'),
         ('true', 'false'), ('false', 'true'), ('_0', '_1'), ('_1', '_0'), ('lower', 'upper'), ('upper', 'lower'),
         ('.min(', '.max('), ('.max(', '.min('), ('min(', 'max('), ('zero_for_one', '!zero_for_one'), ('if ', 'if !'),
         ('outside', 'inside'), ('liquidity_net', 'liquidity_gross as i64'), ('amount_in', 'amount_out'), ('amount_out', 'amount_in'),
         ('wrapping_sub', 'wrapping_add'), ('wrapping_add', 'wrapping_sub'), ('sqrt_price_x32', 'tick'), ('last_', 'next_'),
         ('input', 'output'), ('output', 'input'), ('pool.', 'state.'), ('state.', 'pool.'), ('init_if_needed', 'init'),
         (' as u64', ' as u32 as u64'), (' as i64', ' as i32 as i64'), ('<<', '>>'), ('>>', '<<'), ('?', '.ok();')]


def sources(repo):
    for d, ds, fs in os.walk(os.path.join(repo, SRC)):
        for f in sorted(fs):
            if f.endswith('.rs') and 'test' not in f:
                yield os.path.relpath(os.path.join(d, f), repo)


def mutants(repo):
    for f in sorted(sources(repo)):
        lines = open(os.path.join(repo, f)).read().split('\n')
        comment = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]'):
                break
            if s.startswith('/*'):
                comment = True
            if '*/' in s:
                comment = False
                continue
            if comment or not s or s.startswith(('//', 'use ', 'msg!', 'pub mod', 'mod ', 'pub use', '#[derive', 'declare_id', 'pub struct', '#[event', 'fn ', 'pub fn ', '#[msg')):
                continue
            code = l.split('//')[0]
            for a, b in SWAPS:
                i = code.find(a)
                while i >= 0:
                    ok = True
                    if a in ('true', 'false', 'lower', 'upper', '_0', '_1', 'input', 'output'):
                        ok = not (s.startswith('pub ') or ': ' in s and s.endswith(',') and 'Box<' in s)
                    if a in ('min(',):
                        ok = code[i - 1:i] not in '._' if i else True
                    if a == 'if ' and code[i - 1:i] not in ' {':
                        ok = False
                    if ok:
                        yield {'file': f, 'line': n + 1, 'old': l, 'new': l[:i] + b + l[i + len(a):], 'kind': a.strip() + '->' + b.strip()}
                    i = code.find(a, i + 1)
            for m in re.finditer(r'(?<![\w.#])\d+(?![\w.])', code):
                v = int(m.group())
                for w in {v + 1, max(0, v - 1)} - {v}:
                    yield {'file': f, 'line': n + 1, 'old': l, 'new': l[:m.start()] + str(w) + l[m.end():], 'kind': 'const'}
            if s.endswith(';') and not s.startswith(('let ', 'return', '}', 'pub ', 'const ', ')')):
                yield {'file': f, 'line': n + 1, 'old': l, 'new': l.replace(s, '{}'), 'kind': 'delete'}
            if s.startswith('require!(') and not s.endswith(';') or (s.startswith(('require!(', 'token::transfer(', 'emit!('))):
                j = n
                while j < len(lines) and not lines[j].strip().endswith(';') and j < n + 30:
                    j += 1
                if j > n:
                    yield {'file': f, 'line': n + 1, 'old': '\n'.join(lines[n:j + 1]), 'new': '\n' * (j - n), 'kind': 'delete-block'}
            if re.match(r'(constraint|seeds|bump|has_one|address|close|token::\w+|associated_token::\w+|mint::\w+|mut),?', s) and '=' in s and s.endswith(','):
                yield {'file': f, 'line': n + 1, 'old': l, 'new': '', 'kind': 'constraint'}


def key(m):
    return '%s:%d:%s:%s' % (m['file'], m['line'], m['kind'], m['new'].strip())


def sh(cmd, cwd, env=None, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ''


def run(d, corpora, part, limit, seed):
    import judge, plans
    repo, target = os.path.join(d, 'repo'), os.path.join(d, 'target')
    crate = os.path.join(d, 'harness')
    shutil.copytree(os.path.join(HERE, 'harness'), crate, dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
    m = os.path.join(crate, 'Cargo.toml')
    open(m, 'w').write(open(os.path.join(HERE, 'harness/Cargo.toml')).read().replace('/repo/programs', repo + '/programs'))
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1')
    tenv = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
                CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false')
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    l = list(mutants(repo))
    random.Random(seed).shuffle(l)
    l = l[part[0]::part[1]][:limit]
    res = os.path.join(d, 'results.jsonl')
    done = {json.loads(x)['key'] for x in open(res)} if os.path.exists(res) else set()
    for m in l:
        if key(m) in done:
            continue
        p = os.path.join(repo, m['file'])
        text = open(p).read()
        ls = text.split('\n')
        h = m['old'].count('\n') + 1
        assert '\n'.join(ls[m['line'] - 1:m['line'] - 1 + h]) == m['old']
        try:
            open(p, 'w').write('\n'.join(ls[:m['line'] - 1] + [m['new']] + ls[m['line'] - 1 + h:]))
            o = {'key': key(m), **m}
            c, t = sh(['cargo', 'build', '--offline', '--locked', '--bin', 'replay'], crate, env)
            if c:
                o['result'] = 'does not compile'
            else:
                owners, n, ex = set(), 0, []
                crashed = False
                for k in corpora:
                    out = os.path.join(d, 'out.json')
                    c, t = sh([os.path.join(target, 'debug/replay'), 'traces', k, out, '3'], d, t=400)
                    if c:
                        crashed = True
                        break
                    for f in json.load(open(out)):
                        for x in f['divergences']:
                            n += 1
                            owners |= {q for q in plans.PLANS if judge.owns(q, x)}
                            if len(ex) < 3:
                                ex.append(judge.brief(x) + ' ' + str([('/'.join(y[0])) for y in x['fields'][:4]]))
                    if n:
                        break
                o.update(result='crash' if crashed else 'killed' if n else 'survived', n=n, owners=sorted(owners), examples=ex)
                if not n and not crashed:
                    c, t = sh(['cargo', 'test', '--workspace', '--offline', '--locked'], repo, tenv)
                    bad = [x.split(' ')[1] for x in t.splitlines() if x.startswith('test ') and x.endswith('FAILED')]
                    o['tests'] = bad[:5]
                    if bad or 'test result' not in t:
                        o['result'] = 'tests'
        finally:
            open(p, 'w').write(text)
        open(res, 'a').write(json.dumps(o) + '\n')
        if o['result'] not in ('does not compile', 'tests', 'killed') or not o.get('owners', [1]):
            print(o['result'], o['key'], '\n   was:', m['old'].strip()[:150], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in mutants(sys.argv[2]):
            print(json.dumps(m))
    else:
        a = sys.argv[2:]
        opt = {}
        while len(a) > 1 and any(x.startswith('--') for x in a):
            i = next(i for i, x in enumerate(a) if x.startswith('--'))
            opt[a[i][2:]] = a[i + 1]
            a = a[:i] + a[i + 2:]
        i, n = map(int, opt.get('part', '0/1').split('/'))
        run(a[0], a[1:], (i, n), int(opt.get('limit', 10**9)), int(opt.get('seed', 1)))
