"""Which differences between the program and the specification concern which property."""
import json, os, subprocess

POS = {'OMint', 'OBurn', 'OCollect'}
NFT = {'ONMint', 'ONInc', 'ONDec', 'ONCol'}
SWAP = {'OSwap', 'OExSingle', 'OExIn'}
GOV = {'OInitFactory', 'OSetOwner', 'OEnableFee', 'OSetFeeProt', 'OColProt'}
LIFE = {'OInitTick', 'OCloseTick', 'OInitWord', 'OInitPos'}
PAY = {'OPayMint', 'OPaySwap'}
OPENS = {'OInitFactory', 'OEnableFee', 'OCreatePool', 'OIncObs', 'OInitPos', 'ONMint'} | LIFE
FUNDS = POS | NFT | SWAP | PAY | {'OColProt'}
ALL = None


def classes(path, want, got):
    """The part of the state a differing field belongs to."""
    h = path[0]
    if h == 'wal':
        return {'wallet'}
    if h == 'fac':
        return {'gov'}
    if h == 'tiers':
        return {'tier'}
    if h == 'now':
        return {'time'}
    if h in ('sol', 'gift'):
        return {'lamports'}
    if h == 'nfts':
        if len(path) == 2:
            return {'nftid', 'nftliq'}
        f = path[2]
        return {{'liq': 'nftliq', 'f0': 'nftfee', 'f1': 'nftfee', 'o0': 'nftowed', 'o1': 'nftowed'}.get(f, 'nftid')}
    if h != 'pools':
        return {'other'}
    if len(path) == 2:
        return {'pool'}
    f = path[2]
    if f == 'ticks':
        if len(path) == 4:
            return {'tickacct'}
        # (what is left in a tick that should hold nothing)
        return {{'net': 'tickliq', 'gross': 'tickliq', 'f0': 'tickfee', 'f1': 'tickfee'}.get(path[4], 'ticktime'),
                'tickrest' if want == '0' else 'tickany'}
    if f == 'pos':
        if len(path) == 4:
            return {'posacct'}
        return {{'liq': 'posliq', 'f0': 'posfee', 'f1': 'posfee'}.get(path[4], 'owed')}
    if f == 'obs':
        return {'obs'}
    return {{'sp': 'pool', 'price': 'price', 'tick': 'tick', 'liq': 'liq', 'oi': 'ring', 'card': 'ring', 'cn': 'ring',
             'g0': 'growth', 'g1': 'growth', 'p0': 'prot', 'p1': 'prot', 'v0': 'vault', 'v1': 'vault', 'unl': 'lock',
             'words': 'word', 'bits': 'bits'}.get(f, 'other')}


# per property: (operations, parts of the state, outcomes); outcomes: A the program accepts what the specification
# rejects, R the program rejects what the specification accepts, W the same where that part of the state should have
# changed, E events differ, O the program accepts what the specification rejects for its amounts
MONEY = {'vault', 'wallet', 'prot', 'owed', 'nftowed'}
OWN = {
    'C01': [(FUNDS, MONEY | {'posliq', 'nftliq', 'liq', 'growth', 'posfee', 'tickfee', 'nftfee', 'price', 'tick'}, 'A'),
            (LIFE | {'OIncObs', 'OCreatePool'}, MONEY, '')],
    'C02': [(POS | NFT | SWAP, {'liq', 'posliq', 'tickliq', 'tick', 'bits'}, 'A'), (LIFE, {'liq', 'posliq', 'tickliq', 'bits', 'tickacct'}, '')],
    'C03': [(POS | NFT | SWAP | LIFE, {'tickliq', 'bits', 'tickacct', 'word', 'posliq'}, 'A'), (POS | NFT, {'tickfee', 'ticktime'}, ''), (SWAP, set(), 'R')],
    'C04': [(SWAP, {'price', 'tick', 'liq', 'tickfee', 'ticktime', 'bits'}, 'AR'), ({'OCreatePool'}, {'price', 'tick'}, '')],
    'C05': [(SWAP, {'vault', 'wallet', 'price', 'growth', 'prot', 'liq'}, 'AR')],
    'C06': [(POS | NFT | SWAP, {'growth', 'tickfee', 'posfee', 'nftfee', 'owed', 'nftowed', 'prot', 'liq'}, '')],
    'C07': [({'OMint', 'ONMint', 'ONInc'}, {'posliq', 'vault', 'wallet', 'nftliq', 'liq'}, 'AR')],
    'C08': [({'OBurn', 'OCollect', 'ONDec', 'ONCol'}, {'posliq', 'owed', 'vault', 'wallet', 'liq'}, 'AR'), (ALL, {'posliq', 'owed'}, '')],
    'C09': [({'ONDec', 'ONCol'}, {'nftliq', 'nftowed', 'wallet'}, 'A'), ({'ONDec', 'ONCol'}, set(), 'R'), (NFT | {'ONMeta'}, {'nftid'}, '')],
    'C10': [(NFT, {'nftliq', 'nftowed', 'nftfee', 'posliq', 'posfee', 'owed', 'wallet', 'vault'}, 'AR'), (ALL, {'nftliq', 'nftowed', 'nftfee'}, '')],
    'C11': [({'ONMint', 'ONMeta'}, {'nftid', 'nftliq', 'nftowed', 'nftfee'}, 'AR'), (ALL, {'nftid'}, '')],
    'C12': [({'ONMint', 'ONInc', 'ONDec', 'OExSingle', 'OExIn'}, set(), 'LR')],
    'C13': [({'OExIn'}, {'vault', 'wallet', 'price', 'tick', 'liq', 'growth', 'prot'}, 'AR'), ({'OExSingle'}, {'vault', 'wallet'}, 'AR')],
    'C14': [(ALL, {'obs', 'ring'}, 'W'), (SWAP | POS | NFT, {'tick', 'liq'}, '')],
    'C15': [(ALL, {'obs', 'ring'}, 'W'), ({'OIncObs'}, {'pool', 'lock'}, 'AR')],
    'C16': [(GOV, {'gov', 'tier', 'prot', 'vault', 'wallet'}, 'AR'), (ALL, {'gov', 'tier'}, '')],
    'C17': [({'OCreatePool'}, {'pool', 'price', 'tick', 'liq', 'obs', 'ring', 'lock', 'prot', 'growth', 'vault'}, 'AR'), (ALL, {'pool'}, '')],
    'C18': [(SWAP, {'prot', 'growth'}, ''), (ALL, {'prot'}, ''), ({'OColProt'}, {'prot', 'vault', 'wallet', 'posliq', 'owed', 'growth'}, 'AR')],
    'C19': [(ALL, {'lock'}, ''), ({'OMint', 'OSwap'}, {'lock', 'vault', 'wallet'}, 'H'),
            (PAY, {'vault', 'wallet'}, 'AR')],
    'C20': [(ALL, set(), 'S')],
    'C21': [({'OCreatePool'} | SWAP, {'tick', 'price'}, 'R')],
    'C22': [(LIFE, {'tickacct', 'word', 'posacct', 'tickliq', 'tickfee', 'ticktime', 'posliq', 'owed', 'bits', 'wallet', 'vault', 'price', 'tick', 'liq'}, 'AR'),
            (ALL, {'tickacct', 'word', 'posacct'}, ''), (POS | NFT, {'tickrest'}, '')],
    'C23': [(ALL, set(), 'E')],
    'C24': [({'ONMint', 'ONInc'}, {'posliq', 'nftliq', 'vault', 'wallet', 'liq'}, 'AR')],
    'C25': [(ALL, {'ticktime', 'snap'}, ''), (POS | NFT | SWAP, {'obs', 'tickacct'}, '')],
    'C26': [(ALL, {'wallet', 'vault'}, ''), (FUNDS, set(), 'AF')],
    'C28': [(ALL, {'lamports'}, ''), (OPENS, {'lamports', 'tickacct', 'word', 'posacct', 'obs', 'pool', 'tier', 'gov'}, 'R')],
    'C29': [(SWAP | {'OMint', 'ONMint', 'ONInc'}, set(), 'R')],
    'C30': [(FUNDS, MONEY | {'posliq', 'nftliq', 'liq', 'tickliq'}, 'O')],
    'C27': [({'OBurn', 'OCollect', 'ONDec', 'ONCol'}, set(), 'R')],
}
LIMITS = {'deadline', 'slippage'}
BOUND = {'unbound', 'missing', 'noPool', 'tokenChain', 'notOwner', 'unauthorized'}


def owns(pid, d):
    if d.get('extra'):
        return pid in d['extra']
    tag, want, ok = d['tag'], d['want'], d['ok']
    if tag == 'ESnap':
        return pid == 'C25'
    cl = set()
    for f in d['fields']:
        cl |= classes(f[0], f[1], f[2])
    sub = d['sub'] != ':'
    cb = ((d['tx'].get('op') or {}).get('value') or {}).get('cb') if isinstance((d['tx'].get('op') or {}).get('value'), dict) else None
    for tags, parts, outcomes in OWN[pid]:
        if tags is not None and tag not in tags:
            continue
        if want == ok and cl & parts:
            # same verdict, different effect
            return True
        if want != ok:
            if ok and 'A' in outcomes and (d['why'] not in LIMITS or pid in ('C13',)):
                return True
            if not ok and ('R' in outcomes or ('W' in outcomes and cl & parts)):
                return True
            if ok and 'L' in outcomes and d['why'] in LIMITS:
                return True
            if ok and 'O' in outcomes and d['why'] in ('arith', 'amount', 'funds'):
                return True
            if 'H' in outcomes and ok and d['why'] in ('reentered', 'unpaid', 'locked'):
                return True
            if 'H' in outcomes and not ok and cb not in (None, 'core'):
                return True
            if ok and 'S' in outcomes and (sub or d['why'] in BOUND):
                return True
            # a wrongly accepted operation that changed what the property speaks of
            if ok and cl & parts and d['why'] not in LIMITS:
                return True
        if 'F' in outcomes and not want and not ok and d['fields']:
            return True
        if 'E' in outcomes and d.get('events'):
            return True
    return False


def relevant(pid, key):
    """Does a coverage counter of the replay count something the property speaks of?"""
    w = key.split(' ')
    tag = w[1] if len(w) > 1 else ''
    if pid == 'C20':
        return w[0] == 'sub'
    if pid == 'C19' and w[0] == 'payer':
        return True
    if w[0] not in ('accept', 'reject'):
        return False
    return any(t is None or tag in t for t, _, _ in OWN[pid])


def brief(d):
    return '%s %s %s' % (d['tag'], 'accepted' if d['ok'] else 'rejected', d['why'])


def describe(d):
    if 'text' in d:
        return d['text']
    l = ['step %d %s' % (d['step'], json.dumps(d['tx']))[:700],
         '  specification: %s%s; program: %s%s' % ('accepts' if d['want'] else 'rejects', (' (%s)' % d['why']) if d['why'] else '',
                                                  'accepts' if d['ok'] else 'rejects', (' (%s)' % d['err'][:160]) if d['err'] else '')]
    for f in d['fields'][:12]:
        l.append('  %s: specification %s, program %s' % ('/'.join(f[0]), str(f[1])[:90], str(f[2])[:90]))
    if d.get('events'):
        l.append('  events: specification %s\n          program       %s' % (json.dumps(d['events'][0])[:500], json.dumps(d['events'][1])[:500]))
    return '\n'.join(l)


# ---------------------------------------------------------------- other explorations (see plans.py)
def start_extra(x, work, here, seed, tier):
    import extras
    return x, extras.start(x, work, here, seed, tier)


def finish_extra(h, binary, build, work, pid):
    import extras
    return extras.finish(h[0], h[1], binary, build, work, pid)
