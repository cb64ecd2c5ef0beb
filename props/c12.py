"""C12: signing touches only the inputs the key owns, keeps everything else, and multisig progress is order independent."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['ideal ECDSA (DER length 68..72), uninterpreted hashes', 'concrete private keys, symbolic transaction data']


def own_script(ref, key, kind):
    pkh = ref.hash160(key.public_key)
    return ref.p2sh(ref.hash160(b'\x00\x14' + pkh)) if kind == 'np2wkh' else ref.p2pkh(pkh)


def check_own(h, ref, t, i, key, kind, amount):
    from coincurve import verify_signature
    pub = key.public_key
    pkh = ref.hash160(pub)
    if kind == 'np2wkh':
        h.check_eq('scriptSig', t['ins'][i][2], b'\x16\x00\x14' + pkh)
        items = t['wit'][i]
        digest = txs.bip143_digest(t, i, ref.p2pkh(pkh), amount)
    else:
        items = txs.pushes(t['ins'][i][2])
        h.check_eq('no witness', t['wit'][i], [])
        digest = txs.legacy_digest(t, i, ref.p2pkh(pkh))
    h.check_eq('items', len(items), 2)
    h.check_eq('public key', items[1], pub)
    h.check('signature verifies', verify_signature(items[0][:-1], digest, pub))


def batch(h, kinds, segwit_wire, extra):
    """kinds[i] is None for a foreign input, else the type of the own UTXO it spends"""
    from bit.transaction import sign_tx, deserialize
    from bit.wallet import PrivateKeyTestnet
    from props import ref
    key = hist.shared('own', lambda: PrivateKeyTestnet.from_int(4242))
    wits = []
    for i, k in enumerate(kinds if segwit_wire else []):
        c = [[(0, 73), (33, 33)], [(0, 1)], [(0, 0), (0, 80), (0, 40)], []]
        some = any(wits)
        wits.append(c[h.fork('wit%d' % i, (4 if some else 3) if extra != 'filled' else 2)] if k is None or extra == 'filled' else [])
    shape = ([(0, 110) if k is None or extra == 'filled' else (0, 0) for k in kinds], [(0, 60), (1, 40)], wits)
    t = txs.sym_tx(h, shape, segwit_wire)
    from bit.network.meta import Unspent
    us = []
    amounts = {}
    for i, k in enumerate(kinds):
        if k is not None:
            amounts[i] = h.int('amt%d' % i, 0, 21 * 10 ** 14)
            us.append(Unspent(amounts[i], 1, own_script(ref, key, k).hex(), t['ins'][i][0][::-1].hex(),
                              t['vouts'][i], type=k))
    for i in range(len(kinds)):
        for j in range(i):
            h.assume(h.any([t['ins'][i][0] != t['ins'][j][0], t['vouts'][i] != t['vouts'][j]]))
    if extra == 'foreign':
        # a UTXO of the transaction that this key does not own must not be signed
        for i, k in enumerate(kinds):
            if k is None:
                us.append(Unspent(5, 1, h.bytes('fscript%d' % i, 24).hex(), t['ins'][i][0][::-1].hex(),
                                  t['vouts'][i]))
    if extra == 'unused':
        txid = h.bytes('xt', 32)
        for i in range(len(kinds)):
            h.assume(txid != t['ins'][i][0])
        us.append(Unspent(7, 1, own_script(ref, key, 'p2pkh').hex(), txid[::-1].hex(), h.int('xi', 0, 2 ** 32 - 1)))
    raw = txs.wire(t, segwit_wire)
    got = txs.parse(h, bytes.fromhex(sign_tx(key, deserialize(raw), unspents=us)))
    h.check_eq('version', got['version'], t['version'])
    h.check_eq('locktime', got['locktime'], t['locktime'])
    h.check_eq('outputs', got['outs'], t['outs'])
    h.check_eq('outpoints and sequences', [(a, b, d) for a, b, c, d in got['ins']], [(a, b, d) for a, b, c, d in t['ins']])
    for i, k in enumerate(kinds):
        if k is None:
            h.check_eq('foreign scriptSig', got['ins'][i][2], t['ins'][i][2])
            h.check_eq('foreign witness', got['wit'][i], t['wit'][i] if segwit_wire else [])
        else:
            check_own(h, ref, got, i, key, k, amounts[i])
    h.reach('done')


def two_parties(h, ka, kb):
    """a transaction with one input each of two keys, signed one after the other in both orders"""
    from bit.transaction import sign_tx, deserialize
    from bit.wallet import PrivateKeyTestnet
    from bit.network.meta import Unspent
    from props import ref
    keys = [PrivateKeyTestnet.from_int(11), PrivateKeyTestnet.from_int(12)]
    kinds = [ka, kb]
    t = txs.sym_tx(h, ([(0, 0), (0, 0)], [(0, 60)], []), False)
    h.assume(h.any([t['ins'][0][0] != t['ins'][1][0], t['vouts'][0] != t['vouts'][1]]))
    us, am = [], []
    for i in range(2):
        am.append(h.int('amt%d' % i, 0, 21 * 10 ** 14))
        us.append(Unspent(am[i], 1, own_script(ref, keys[i], kinds[i]).hex(), t['ins'][i][0][::-1].hex(),
                          t['vouts'][i], type=kinds[i]))
    res = []
    for order in ([0, 1], [1, 0]):
        tx = txs.legacy(t).hex()
        for o in order:
            tx = sign_tx(keys[o], deserialize(tx), unspents=us)
        got = txs.parse(h, bytes.fromhex(tx))
        h.check_eq('outputs', got['outs'], t['outs'])
        for i in range(2):
            check_own(h, ref, got, i, keys[i], kinds[i], am[i])
        res.append(tx)
    h.check_eq('order does not matter', res[0], res[1])


def multisig_setup(h, net, segwit, m, n):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from props import ref
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    keys = [hist.shared((net, i), lambda: kc.from_int(50 + i)) for i in range(n)]
    pubs = [k.public_key for k in keys]
    ms = [hist.shared((net, i, m, n), lambda: mc(k, list(pubs), m)) for i, k in enumerate(keys)]
    redeem = ms[0].redeemscript
    script = ref.p2sh(ref.hash160(b'\x00\x20' + ref.sha256(redeem))) if segwit else ref.p2sh(ref.hash160(redeem))
    us = [txs.unspent(h, 0, script, 'np2wsh' if segwit else 'p2sh')]
    outs = [(txs.DEST[net][1], h.int('o', 1, 21 * 10 ** 14))]
    return ms, pubs, redeem, us, outs


def items_of(h, ref, tx, segwit, redeem, us):
    t = txs.parse(h, bytes.fromhex(tx))
    if segwit:
        h.check_eq('scriptSig', t['ins'][0][2], b'\x22\x00\x20' + ref.sha256(redeem))
        return t['wit'][0], txs.bip143_digest(t, 0, redeem, us[0].amount)
    return txs.pushes(t['ins'][0][2]), txs.legacy_digest(t, 0, redeem)


def multisig_order(h, net, segwit, m, n, orders):
    """every signing order of the same signers gives the same transaction"""
    from bit.transaction import create_new_transaction, sign_tx, deserialize
    ms, pubs, redeem, us, outs = multisig_setup(h, net, segwit, m, n)
    res = []
    for order in orders:
        tx = create_new_transaction(ms[order[0]], us, outs)
        for o in order[1:]:
            tx = sign_tx(ms[o], deserialize(tx), unspents=us)
        res.append(tx)
    for r in res[1:]:
        h.check_eq('same transaction', r, res[0])


def multisig_partial(h, net, segwit, m, n, order):
    """after each step: collected signatures are kept in key order, the rest is empty place holders; a signer may repeat;
    a complete input refuses more signatures"""
    from bit.transaction import create_new_transaction, sign_tx, deserialize
    from coincurve import verify_signature
    from props import ref
    ms, pubs, redeem, us, outs = multisig_setup(h, net, segwit, m, n)
    tx = None
    have = set()
    for o in order:
        if tx is None:
            tx = create_new_transaction(ms[o], us, outs)
        elif len(have) >= m:
            e, _ = h.attempt(sign_tx, ms[o], deserialize(tx), unspents=us)
            h.check('complete input refuses more', isinstance(e, ValueError))
            h.reach('refused')
            return
        else:
            tx = sign_tx(ms[o], deserialize(tx), unspents=us)
        have.add(o)
        items, digest = items_of(h, ref, tx, segwit, redeem, us)
        h.check_eq('dummy first', items[0], b'')
        h.check_eq('redeem script last', items[-1], redeem)
        sigs = [s for s in items[1:-1] if len(s) > 0]
        h.check_eq('number of signatures', len(sigs), len(have))
        if tx is not None and len(order) > 1 and o is not order[0]:
            h.check_eq('place holders', len(items), m + 2)
        if len(have) == m:
            h.check_eq('complete', len(items), m + 2)
        for s, k in zip(sigs, sorted(have)):
            h.check_eq('hash type', s[-1], 1)
            h.check('signature of the right key', verify_signature(s[:-1], digest, pubs[k]))
    h.reach('done')


FLEN = [0, 1, 2, 20, 22, 23, 24, 25, 26, 34, 35, 48, 67]


def foreign(h, net, own, lens):
    """a foreign input whose UTXO is listed with any script that is not one of this key's stays as it is"""
    from bit.transaction import sign_tx, deserialize
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from bit.format import bytes_to_wif
    from bit.network.meta import Unspent
    from props import ref
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    if own == 'multi':
        a, b = kc.from_int(50), kc.from_int(51)
        key = mc(a, [a.public_key, b.public_key], 1)
        red = key.redeemscript
        mine = [ref.p2sh(ref.hash160(red)), ref.p2sh(ref.hash160(b'\x00\x20' + ref.sha256(red)))]
    else:
        key = kc(bytes_to_wif((4242).to_bytes(32, 'big'), version=net, compressed=own == 'comp'))
        pkh = ref.hash160(key.public_key)
        mine = [ref.p2pkh(pkh)] + ([ref.p2sh(ref.hash160(b'\x00\x14' + pkh))] if own == 'comp' else [])
    n = h.fork('len', lens)
    script = h.bytes('fscript', n)
    for s in mine:
        h.assume(script != s)
    shape = ([(0, 110)] + ([(0, 0)] if own != 'multi' else []), [(0, 30)], [])
    t = txs.sym_tx(h, shape, False)
    us = [Unspent(h.int('famt', 0, 21 * 10 ** 14), 1, script.hex(), t['ins'][0][0][::-1].hex(), t['vouts'][0])]
    if own != 'multi':
        h.assume(h.any([t['ins'][0][0] != t['ins'][1][0], t['vouts'][0] != t['vouts'][1]]))
        amount = h.int('amt', 0, 21 * 10 ** 14)
        us.append(Unspent(amount, 1, mine[0].hex(), t['ins'][1][0][::-1].hex(), t['vouts'][1], type='p2pkh'))
    h.check('does not claim the foreign output', not key.can_sign_unspent(us[0]))
    got = txs.parse(h, bytes.fromhex(sign_tx(key, deserialize(txs.legacy(t)), unspents=us)))
    h.check_eq('foreign input', got['ins'][0], t['ins'][0])
    h.check_eq('foreign witness', got['wit'][0], [])
    h.check_eq('outputs', got['outs'], t['outs'])
    if own != 'multi':
        check_own(h, ref, got, 1, key, 'p2pkh', amount)
    h.reach('done')


def no_unspents(h):
    from bit.transaction import sign_tx, deserialize
    from bit.wallet import PrivateKeyTestnet
    t = txs.sym_tx(h, ([(0, 0)], [(0, 30)], []), False)
    e, _ = h.attempt(sign_tx, PrivateKeyTestnet.from_int(9), deserialize(txs.legacy(t)), unspents=None)
    h.check('TypeError', isinstance(e, TypeError))


def cases(tier):
    import itertools
    q = tier == 'quick'
    out = [Case('no_unspents', no_unspents, 'no unspents given')]
    A, B = 'p2pkh', 'np2wkh'
    combos = [([A], False), ([B], False), ([A, None], False), ([None, B], False), ([None, B], True), ([A, None, B], True),
              ([B, None, None, A], False), ([None, A, None], True), ([None], False)]
    if not q:
        combos += [(list(k), w) for n in (2, 3) for k in itertools.product([A, B, None], repeat=n) for w in (False, True)
                   if not (w and None not in k)]
    seen = set()
    for kinds, sw in combos:
        for extra in ('', 'foreign', 'unused') + (('filled',) if len(kinds) < 3 and any(kinds) else ()):
            name = 'batch_%s_%s_%s' % ('-'.join(str(k) for k in kinds), 'w' if sw else 'l', extra)
            if name in seen:
                continue
            seen.add(name)
            out.append(Case(name, batch, 'inputs %s on a %s transaction; arbitrary outpoints, amounts, foreign scripts'
                            % (kinds, 'segwit' if sw else 'legacy'), kinds=kinds, segwit_wire=sw, extra=extra, must=['done']))
    for net in ('main', 'test'):
        for own in ('comp', 'uncomp', 'multi'):
            out.append(Case('foreign_%s_%s' % (net, own), foreign, 'a foreign output with any other script of %s bytes'
                            % FLEN, net=net, own=own, lens=FLEN, must=['done']))
    for i, (first, second) in enumerate([(([A, None], False), ([A], False)), (([B], False), ([B, A], False))]):
        out.append(hist.case('batch_%d' % i, 'two transactions signed by the same key', [(batch, {'kinds': k, 'segwit_wire': w, 'extra': ''})
                                                                                  for k, w in (first, second)], share=(), reverse=False))
    for sw in (False, True):
        out.append(hist.case('partial_%d' % sw, 'two transactions signed by the same multisig wallets', [
            (multisig_partial, {'net': 'main', 'segwit': sw, 'm': 2, 'n': 2, 'order': o}) for o in ([0, 1], [1, 0])], share=()))
    for ka in (A, B):
        for kb in (A, B):
            out.append(Case('two_%s_%s' % (ka, kb), two_parties, 'two owners, both signing orders', ka=ka, kb=kb))
    for net in ('main', 'test'):
        for sw in (False, True):
            for m, n, orders in [(2, 2, [[0, 1], [1, 0]]), (2, 3, [[0, 2], [2, 0]]),
                                 (3, 3, [list(p) for p in itertools.permutations(range(3))])] + (
                    [] if q else [(3, 4, [list(p) for p in itertools.permutations([0, 2, 3])]),
                                  (4, 4, [list(p) for p in itertools.permutations(range(4))])]):
                out.append(Case('order_%s_%d_%dof%d' % (net, sw, m, n), multisig_order, '%d-of-%d, orders %s' % (m, n, orders),
                                net=net, segwit=sw, m=m, n=n, orders=orders))
            seqs = [(2, 3, [0, 1, 2]), (2, 2, [1, 1, 0]), (3, 3, [0, 0, 1, 2]), (3, 3, [2, 1, 1, 0, 2]), (1, 2, [0, 1]),
                    (3, 4, [1, 1, 1, 0]), (2, 3, [2, 2, 2, 1, 0])]
            if not q:
                seqs = [(m, n, list(o)) for n in (2, 3) for m in range(1, n + 1)
                        for o in itertools.product(range(n), repeat=m + 2)]
            for m, n, o in seqs:
                out.append(Case('partial_%s_%d_%dof%d_%s' % (net, sw, m, n, ''.join(map(str, o))), multisig_partial,
                                '%d-of-%d, signing history %s' % (m, n, o), net=net, segwit=sw, m=m, n=n, order=o))
    return out
