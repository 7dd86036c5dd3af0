"""What is explored for each property."""

ASSUMPTIONS = [
    'the specification is explored by random and directed simulation, not exhaustively, at the deployed numerics',
    'the real instruction handlers run natively with stand-ins for the Solana runtime (account loading, CPI, sysvars); '
    'the SPL token program is the real one',
    'release semantics of integer overflow (wrap-around), as in the shipped program',
]
# profiles of gen.qnt: 0 liquidity and swaps, 1 NFT positions, 2 router, 3 oracle, 4 governance and creation,
# 5 account lifecycle, 6 hostile payers, 7 substituted accounts, 8 huge amounts, 9 everything,
# 10 extreme tiers, prices and fee growth, 11 everybody leaves
PLANS = {
    'C01': [0, 10, 6, 8, 11, 1],
    'C02': [0, 10, 5, 8, 9, 1],
    'C03': [0, 5, 5, 11, 9, 10],
    'C04': [0, 10, 0, 8, 2, 10],
    'C05': [0, 6, 0, 8, 2, 10],
    'C06': [0, 10, 0, 1, 9, 10],
    'C07': [6, 6, 0, 8, 1, 10],
    'C08': [0, 5, 7, 1, 8, 6],
    'C09': [1, 1, 1, 7],
    'C10': [1, 1, 10, 11, 7, 1],
    'C11': [1, 1, 1, 7],
    'C12': [1, 1, 2, 2],
    'C13': [2, 2, 2, 9],
    'C14': [3, 3, 0, 10, 3, 9],
    'C15': [3, 3, 3, 3, 3, 9],
    'C16': [4, 4, 4, 7],
    'C17': [4, 4, 10, 7],
    'C18': [4, 0, 10, 11, 9, 0],
    'C19': [6, 6, 6, 9],
    'C20': [7, 7, 7, 7],
    'C21': [0, 4, 10],
    'C22': [5, 5, 5, 7, 10, 5],
    'C23': [9, 9, 4, 1, 2, 5],
    'C24': [1, 1, 1, 8, 10, 1],
    'C25': [3, 3, 0, 0, 3, 10],
    'C26': [9, 9, 6, 7, 1, 10],
    'C27': [11, 11, 8, 11, 10, 1],
    'C29': [3, 11, 10, 2, 9, 1],
    'C30': [8, 8, 10, 8, 1, 6],
    'C28': [13, 13, 13, 5, 13, 9],
}
# 13 accounts and their rent; 12 a long oracle ring: one long behaviour
LONG = {'C14', 'C15'}
# other explorations (extras.py)
EXTRA = {'C21': ['ticks'], **{p: ['calc'] for p in ['C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C14', 'C24', 'C25', 'C30']}}


def salt(pid):
    return int(pid[1:]) * 104729


def plan(pid, tier, cores):
    l = PLANS[pid]
    j = 0
    big = tier == 'thorough'
    runs = []
    for i in range(cores):
        # one process in four also evaluates the properties, with their ghost variables, on the specification
        g = i % 4 == 3
        samples = (6 if g else 16) * (14 if big else 1)
        runs.append({'profiles': [l[j % len(l)]] if not g else sorted(set(l)), 'samples': samples, 'steps': 200 if big else 150, 'ghosts': g})
        j += 0 if g else 1
    if pid in LONG:
        runs.append({'profiles': [12], 'samples': 4 if big else 1, 'steps': 700, 'ghosts': False})
    return {'runs': runs, 'limit': 3000 if big else 500, 'extra': EXTRA.get(pid, [])}
