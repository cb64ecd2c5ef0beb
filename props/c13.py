"""C13: no satoshi is created or lost: inputs = outputs + change + fee, with the fee the caller asked for."""
from symbit.common import Case
from props import txs, spend, hist

ASSUMPTIONS = ['amounts 1..21e14 satoshi, fee rate 1..10000 sat/B or absolute fee up to 1e9',
               'every outcome of the random draws is explored']


def conserve(h, types, dests, mode, msg, min_change, fee, **kw):
    s = spend.setup(h, types, dests, mode, msg, min_change, fee, **kw)
    if s['e'] is not None:
        h.check('only InsufficientFunds', s['insufficient'])
        h.reach('insufficient')
        return
    spend.expect_sizes(h, s['given'])
    sel, change = spend.split(h, s)
    total = sum(u.amount for u in sel)
    paid = total - s['target'] - (change if change is not None else 0)
    if mode == 'absolute':
        h.check_eq('exact absolute fee', paid, s['rate'])
        h.reach('absolute')
    elif mode == 'combine':
        h.check_eq('fee is rate times size', paid, s['rate'] * spend.size(sel, s['out_size'], s['change_size']))
        h.reach('combine')
    else:
        full = s['rate'] * spend.size(sel, s['out_size'], s['change_size'])
        low = s['rate'] * (sum(u.vsize for u in sel) + s['out_size'] + 9)
        if change is not None:
            h.check_eq('fee is rate times size', paid, full)
            h.check('change at least the minimum', change >= s['mc'])
            h.reach('draw')
        else:
            h.check('fee at least rate times size', paid >= low)
            h.check('overpaid by at most one input and one output', paid <= low + s['rate'] * 182)
            h.reach('match')


def final_tx(h, kinds, nout, mode):
    """end to end: the amounts in the signed transaction are the amounts requested plus change"""
    from bit.wallet import PrivateKey
    from bit.exceptions import InsufficientFunds
    from props import ref
    key = PrivateKey.from_int(31337)
    pkh = ref.hash160(key.public_key)
    us = []
    for i, k in enumerate(kinds):
        script = ref.p2sh(ref.hash160(b'\x00\x14' + pkh)) if k == 'np2wkh' else ref.p2pkh(pkh)
        us.append(txs.unspent(h, i, script, k, seq=False))
    txs.distinct(h, us)
    vs = [h.int('v%d' % i, 1, 21 * 10 ** 14) for i in range(nout)]
    fee = h.int('fee', 1, 10000)
    dests = [0, 1, 2] if mode == 'rate' else [0, 1, 0]
    outs = [(txs.DEST['main'][dests[i]], v, 'satoshi') for i, v in enumerate(vs)]
    total = sum(u.amount for u in us)
    e, tx = h.attempt(key.create_transaction, outs, fee=fee, absolute_fee=mode == 'absolute', unspents=list(us))
    if e is not None:
        h.check('only InsufficientFunds', isinstance(e, InsufficientFunds))
        return
    t = txs.parse(h, bytes.fromhex(tx))
    got = [int.from_bytes(a, 'little') for a, s in t['outs']]
    h.check_eq('requested amounts', got[:nout], vs)
    h.check('at most one change output', len(got) <= nout + 1)
    sizes = [34, 32, 31]
    if mode == 'absolute':
        used = [u for u in us if h.any([h.eq(bytes.fromhex(u.txid)[::-1] + u.txindex.to_bytes(4, 'little'), a + b)
                                        for a, b, c, d in t['ins']])]
        h.check_eq('fee', sum(u.amount for u in used) - sum(got), fee)
    else:
        seg = 'np2wkh' in kinds
        sz = sum(91 if k == 'np2wkh' else 148 for k in kinds) + sum(sizes[i % 3] for i in range(nout)) + (32 if seg else 34) + 10 + (
            1 if seg else 0)
        h.check_eq('fee', total - sum(got), fee * sz)
    if len(got) > nout:
        h.check_eq('change returns to the wallet', t['outs'][-1][1],
                   ref.p2sh(ref.hash160(b'\x00\x14' + pkh)) if 'np2wkh' in kinds else ref.p2pkh(pkh))
    h.reach('created')


PER = {'satoshi': 1, 'ubtc': 100, 'mbtc': 10 ** 5, 'btc': 10 ** 8}


def units(h, net, given, offline):
    """amounts in any unit or currency: each output pays exactly the amount, rounded down to whole satoshi, and the fee is exact"""
    import json
    from bit.exceptions import InsufficientFunds
    from props import ref
    from props.c15 import wallet, utxo
    w = wallet('single', net)
    us = [utxo(h, w, i) for i in range(2)]
    txs.distinct(h, us)
    rate = h.int('rate', 1, 10 ** 6)
    if any(c not in PER for c, _, _ in given):
        from props import c18
        c18.stub(h, [c for c, _, _ in given if c not in PER][0], rate)
    outs, want = [], []
    for i, (cur, exp, form) in enumerate(given):
        per = PER.get(cur, rate)
        n = h.int('v%d' % i, 1, 10 ** 15 // PER.get(cur, 1000) * 10 ** -exp)
        if form == 'int':
            arg = n
        else:
            d = h.scaled(n, exp)
            arg = str(d) if form == 'text' else d if form == 'decimal' else h.to_float(n, exp)
        outs.append((txs.DEST[net][i % 3], arg, cur))
        h.assume(n * per >= 10 ** -exp)     # less than a satoshi is no payment
        want.append((n, exp, per))
    fee = h.int('fee', 1, 10 ** 9)
    before = list(outs)
    if offline:
        e, tx = h.attempt(type(w).prepare_transaction, w.address, outs, fee=fee, absolute_fee=True, unspents=list(us))
    else:
        e, tx = h.attempt(w.create_transaction, outs, fee=fee, absolute_fee=True, unspents=list(us))
    h.check('the outputs given are untouched', h.all([len(outs) == len(before), h.all([h.all([a is b for a, b in zip(x, y)]) for x, y in zip(outs, before)])]))
    if e is not None:
        h.check('only InsufficientFunds', isinstance(e, InsufficientFunds))
        h.check('indeed insufficient', sum(u.amount for u in us) < fee + sum(n * per * 10 ** exp if exp >= 0 else n * per // 10 ** -exp for n, exp, per in want))
        h.reach('insufficient')
        return
    if offline:
        d = json.loads(tx)
        got = [(address_script(a), v) for a, v in d['outputs']]
        spent = sum(u['amount'] for u in d['unspents'])
    else:
        t = txs.parse(h, bytes.fromhex(tx))
        got = [(s, int.from_bytes(a, 'little')) for a, s in t['outs']]
        spent = sum(u.amount for u in us if h.any([h.eq(bytes.fromhex(u.txid)[::-1] + u.txindex.to_bytes(4, 'little'), i[0] + i[1]) for i in t['ins']]))
    h.check('every output is there', len(outs) <= len(got) <= len(outs) + 1)
    for i, (n, exp, per) in enumerate(want):
        v = got[i][1]
        h.check('not more than the amount', v * 10 ** -exp <= n * per)
        h.check('less than one satoshi lost', (v + 1) * 10 ** -exp > n * per)
        h.check_eq('to its address', got[i][0], address_script(txs.DEST[net][i % 3]))
    h.check_eq('the rest is the fee', spent - sum(v for _, v in got), fee)
    h.reach('created')


def address_script(a):
    from bit.transaction import address_to_scriptpubkey
    return address_to_scriptpubkey(a)


def cases(tier):
    q = tier == 'quick'
    A, B, C = txs.DEST['main']
    out = []
    R, F = (1, 10000), (0, 10 ** 9)
    P, W, M, N = 'p2pkh', 'np2wkh', 'p2sh', 'np2wsh'
    sets = [[P], [W], [P, W], [M, N, 'unknown'], [P, P, W, 'p2pkh-uncompressed']] + ([] if q else [[P] * 6, [W, P] * 4])
    for i, types in enumerate(sets):
        for j, dests in enumerate([[A], [C, B, C], []] if q else [[A], [C, B], [C, B, C], [], [A, A, B, C]]):
            for mode, fee in (('combine', R), ('absolute', F)):
                for msg in ([0, 81] if q else [0, 1, 80, 81, 300]):
                    for mc in ([0] if q and len(types) > 2 else [0, (0, 10000)]):
                        out.append(Case('%s_%d_%d_%d_%s' % (mode, i, j, msg, 'min' if mc else '0'), conserve,
                                        'UTXO types %s, %d outputs, %d-byte message, any amounts and fee' % (types, len(dests), msg),
                                        types=types, dests=dests, mode=mode, msg=msg, min_change=mc, fee=fee))
    for i, types in enumerate([[P], [W, M]]):
        for mode, fee in (('combine', R), ('absolute', F)):
            for j, dests in enumerate([[B, A], [A, A], [A, B, C, A]]):
                out.append(Case('home_%s_%d_%d' % (mode, i, j), conserve, 'payments to the change address, any amounts and fee', types=types, dests=dests,
                                mode=mode, msg=0, min_change=0, fee=fee))
            for msg in (80, 160, 161, 320, 500) + (() if q else (2000, 20000)):
                out.append(Case('long_%s_%d_%d' % (mode, i, msg), conserve, '%d-byte message, any amounts and fee' % msg, types=types, dests=[B],
                                mode=mode, msg=msg, min_change=0, fee=fee))
    for types in ([[P], [W, P]] if q else [[P], [W, P], [P, W, M], [P, P, P], [W, N, P, P]]):
        for mc in (0, (0, 10000)):
            for dests, msg in [([A], 0), ([B, C], 81)]:
                out.append(Case('bnb_%s_%s_%d_%d' % ('-'.join(types), 'min' if mc else '0', len(dests), msg), conserve,
                                'any amounts, all random draws', types=types, dests=dests, mode='bnb', msg=msg, min_change=mc, fee=R,
                                weight=10 ** len(types)))
    for i, (types, lim) in enumerate([([P, W, M], 6), ([P, P, W], 6)] if q else [([P, P, P], 9), ([P, W, M, N], 6)]):
        out.append(Case('bnb_lim_%d' % i, conserve, 'any amounts in descending order, the first %d random draws free' % lim, types=types,
                        dests=[A], mode='bnb', msg=0, min_change=(0, 10000), fee=R, rand=lim, order=True, weight=500))
    for kinds in [[P], [W], [P, W]]:
        for nout in (1, 3):
            for mode in ('rate', 'absolute'):
                out.append(Case('tx_%s_%d_%s' % ('-'.join(kinds), nout, mode), final_tx, 'signed transaction, any amounts and fee',
                                kinds=kinds, nout=nout, mode=mode, must=['created']))
    mixes = [[('btc', -8, 'text')], [('mbtc', -5, 'decimal'), ('satoshi', 0, 'int')], [('ubtc', -2, 'text'), ('btc', 0, 'int'), ('mbtc', -2, 'text')],
             [('usd', -2, 'text')], [('eur', 0, 'int'), ('btc', -8, 'decimal')], [('btc', -12, 'text'), ('ubtc', -4, 'decimal')], [('btc', -8, 'float'), ('mbtc', -5, 'float')]]
    for net in ('main', 'test'):
        for i, given in enumerate(mixes):
            for offline in (False, True):
                out.append(Case('units_%s_%d_%d' % (net, i, offline), units, 'outputs in %s, any amounts and fee' % given, net=net, given=given, offline=offline,
                                must=['created', 'insufficient']))
    for mode, fee in (('combine', R), ('absolute', F)):
        out.append(hist.case(mode, 'two transactions in a row', [(conserve, {'types': t, 'dests': d, 'mode': mode, 'msg': 0, 'min_change': 0, 'fee': fee})
                                                                 for t, d in (([P], [A]), ([W, P], [A, B]))], share=()))
    return out
