"""C14: coin selection spends a duplicate-free subset of the given UTXOs and refuses only when the funds do not suffice."""
from symbit.common import Case
from props import txs, spend, hist

ASSUMPTIONS = ['amounts 1..21e14 satoshi, fee rate 1..10000 sat/B or absolute fee up to 1e9, up to 4 UTXOs (8 in thorough)',
               'Branch-and-Bound never reaches its limit of 1e6 tries within these bounds']


def subsets(xs):
    out = [[]]
    for x in xs:
        out += [s + [x] for s in out]
    return out


def select(h, types, dests, mode, msg, min_change, fee, economic=False, **kw):
    s = spend.setup(h, types, dests, mode, msg, min_change, fee, **kw)
    given = s['given']

    def cost(sel):
        if mode in ('absolute', 'draw-absolute'):
            return s['rate']
        return s['rate'] * spend.size(sel, s['out_size'], s['change_size'])

    if economic:
        for u in given:
            h.assume(u.amount > s['rate'] * u.vsize)
    total = sum(u.amount for u in given)
    enough = total - s['target'] - cost(given) >= s['mc']
    if s['e'] is not None:
        h.check('only InsufficientFunds', s['insufficient'])
        h.check('refused only when all UTXOs together do not suffice', not enough)
        h.reach('insufficient')
        sel, change, failed = [], None, True
    else:
        failed = False
        sel, change = spend.split(h, s)
        ids = [id(u) for u in sel]
        h.check('at least one UTXO', len(sel) > 0)
        h.check('no UTXO twice', len(set(ids)) == len(ids))
        h.check('only given UTXOs', set(ids) <= set(id(u) for u in given))
        h.reach('selected')
    if mode in ('combine', 'absolute', 'draw-absolute'):
        if not failed:
            h.check('never accepted when the funds do not suffice', enough)
    if mode in ('combine', 'absolute') and not failed:
        h.check('combining spends every UTXO in the given order', [id(u) for u in sel] == [id(u) for u in given])
    if mode == 'draw-absolute' and not failed:
        left = sum(u.amount for u in sel) - s['target'] - s['rate'] - s['mc']
        h.check('enough', left >= 0)
        h.check('nothing drawn beyond what suffices', left - sel[-1].amount < 0)
    if mode == 'bnb' and economic:
        exists = []
        for sub in subsets(given):
            low = s['rate'] * (sum(u.vsize for u in sub) + s['out_size'] + 9)
            over = sum(u.amount for u in sub) - s['target'] - low
            exists.append(h.all([over >= 0, over <= s['rate'] * 182]))
        if not failed and change is None:
            h.check('without change only on a match or an exact draw',
                    h.any(exists + [sum(u.amount for u in sel) - s['target'] - cost(sel) == 0]))
        else:
            h.check('a selection without change is used when one exists', h.all([not x for x in exists]))


def inputs(h, kinds, combine, absolute):
    """the inputs of the signed transaction are distinct given UTXOs"""
    from bit.wallet import PrivateKey
    from bit.exceptions import InsufficientFunds
    from props import ref
    h.control_random()
    key = PrivateKey.from_int(31337)
    pkh = ref.hash160(key.public_key)
    us = []
    for i, k in enumerate(kinds):
        script = ref.p2sh(ref.hash160(b'\x00\x14' + pkh)) if k == 'np2wkh' else ref.p2pkh(pkh)
        us.append(txs.unspent(h, i, script, k, seq=False))
    txs.distinct(h, us)
    out = [(txs.DEST['main'][0], h.int('v', 1, 21 * 10 ** 14), 'satoshi')]
    ops = [bytes.fromhex(u.txid)[::-1] + u.txindex.to_bytes(4, 'little') for u in us]
    e, tx = h.attempt(key.create_transaction, out, fee=h.int('fee', 1, 10000), absolute_fee=absolute, combine=combine, unspents=list(us))
    if e is not None:
        h.check('only InsufficientFunds', isinstance(e, InsufficientFunds))
        return
    t = txs.parse(h, bytes.fromhex(tx))
    got = [a + b for a, b, c, d in t['ins']]
    if combine:
        h.check_eq('all inputs in order', got, ops)
    for i, g in enumerate(got):
        h.check('given', h.any([g == o for o in ops]))
        h.check('distinct', h.all([g != o for o in got[:i]]))
    h.reach('created')


def deep(h, n, want, rate):
    """many UTXOs whose sums all differ: the one combination that needs no change lies deep in the search tree and is still found"""
    from bit.network.meta import Unspent
    from bit.transaction import sanitize_tx_data
    h.control_random(0)
    us = [Unspent(10 ** 6 + 1000 * 2 ** i, 1, 'aa', '%064x' % (i // 2 + 1), i % 2, type='p2pkh') for i in range(n)]
    given = list(us)
    chosen = [given[i] for i in want]
    most = sum(u.amount for u in chosen) - rate * (148 * len(chosen) + 34 + 9)
    v = h.int('v', most - 182 * rate, most)
    e, r = h.attempt(sanitize_tx_data, us, [(txs.DEST['main'][0], v, 'satoshi')], rate, txs.DEST['main'][1], combine=False, version='main')
    h.check('selected', e is None)
    sel, outs = r
    h.check('no change', len(outs) == 1)
    over = sum(u.amount - 148 * rate for u in sel) - v - 43 * rate
    h.check('a combination that needs no change', h.all([over >= 0, over <= 182 * rate]))
    h.check('distinct given UTXOs', len(set(id(u) for u in sel)) == len(sel) and set(id(u) for u in sel) <= set(id(u) for u in given))
    h.reach('exact')


def nothing(h):
    """no UTXO: ValueError, never a transaction without inputs"""
    from bit.transaction import sanitize_tx_data
    e, r = h.attempt(sanitize_tx_data, [], [(txs.DEST['main'][0], h.int('v', 1, 10 ** 15), 'satoshi')], h.int('fee', 0, 1000),
                     txs.DEST['main'][1], combine=h.fork('combine', [True, False]), absolute_fee=h.fork('abs', [True, False]))
    h.check('refused', isinstance(e, ValueError))


def cases(tier):
    q = tier == 'quick'
    A, B, C = txs.DEST['main']
    out = [Case('nothing', nothing, 'no unspents')]
    R, F = (1, 10000), (0, 10 ** 9)
    P, W, M, N = 'p2pkh', 'np2wkh', 'p2sh', 'np2wsh'
    MC = (0, 10000)
    sets = [[P], [W, P], [M, N, 'unknown'], [P, P, W, 'p2pkh-uncompressed']] + ([] if q else [[P] * 6, [W, P] * 4])
    for i, types in enumerate(sets):
        for mode, fee in (('combine', R), ('absolute', F)):
            for dests, msg in [([A], 0), ([C, B], 81), ([], 5)]:
                out.append(Case('%s_%d_%d' % (mode, i, len(dests)), select, '%d UTXOs %s' % (len(types), types), types=types, dests=dests,
                                mode=mode, msg=msg, min_change=MC, fee=fee, must=['selected', 'insufficient']))
        if len(types) < (4 if q else 5):
            out.append(Case('draw_%d' % i, select, 'absolute fee without combining, every shuffle', types=types, dests=[A],
                            mode='draw-absolute', msg=0, min_change=MC, fee=F, must=['selected', 'insufficient'], weight=5))
    for i, types in enumerate([[P], [W], [W, P], [P, P]]):
        for eco in (False, True):
            for dests, msg in [([A], 0), ([B, C], 81)]:
                out.append(Case('bnb_%d_%d_%d' % (i, eco, len(dests)), select, 'every random draw%s' % (
                    ', UTXOs worth more than their cost' if eco else ''), types=types, dests=dests, mode='bnb', msg=msg, min_change=MC,
                    fee=R, economic=eco, weight=10 ** len(types)))
    for i, (types, lim) in enumerate([([P, W, M], 5), ([P, P, P], 5)] if q else [([P, W, M], 9), ([P, P, P], 9), ([P, W, P, N], 6)]):
        for eco in (False, True):
            out.append(Case('bnb_lim_%d_%d' % (i, eco), select, 'descending amounts, the first %d random draws free' % lim, types=types,
                            dests=[A], mode='bnb', msg=0, min_change=MC, fee=R, economic=eco, rand=lim, order=True, weight=500))
    for n, want in [(10, range(5, 10)), (12, range(7, 12)), (13, (0, 5, 11, 12))] + ([] if q else [(14, range(8, 14)), (16, (1, 2, 9, 14, 15))]):
        out.append(Case('deep_%d' % n, deep, '%d UTXOs, one combination matches, omission explored first' % n, n=n, want=tuple(want), rate=1,
                        must=['exact'], weight=300))
    for kinds in [[P], [P, W]] + ([] if q else [[W, W, P]]):
        for combine, absolute in ((True, False), (False, False), (True, True), (False, True)):
            out.append(Case('tx_%s_%d%d' % ('-'.join(kinds), combine, absolute), inputs, 'signed transaction', kinds=kinds, combine=combine,
                            absolute=absolute, must=['created']))
    for mode, fee in (('combine', R), ('absolute', F), ('draw-absolute', F)):
        out.append(hist.case(mode, 'two selections in a row', [(select, {'types': t, 'dests': [A], 'mode': mode, 'msg': 0, 'min_change': MC, 'fee': fee})
                                                               for t in ([P], [W, P])], share=()))
    out.append(hist.case('bnb', 'two selections in a row', [(select, {'types': t, 'dests': [A], 'mode': 'bnb', 'msg': 0, 'min_change': (0, 0), 'fee': R,
                                                                      'economic': True}) for t in ([P], [W])], share=(), reverse=False))
    return out
