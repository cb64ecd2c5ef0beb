"""C11: every signature verifies under the consensus signature hash of its input (legacy SIGHASH_ALL, BIP143)."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['ideal ECDSA: a signature verifies for the signed digest and key only; DER length 68..72',
               'SHA-256/RIPEMD-160 are uninterpreted', 'private keys are concrete, all transaction data symbolic']


def preimages(h, shape, segs):
    """calculate_preimages on arbitrary transactions"""
    from bit.transaction import calculate_preimages, TxObj, TxIn, TxOut
    from props import ref
    t = txs.sym_tx(h, shape, False)
    amounts = [h.int('amt%d' % i, 0, 2 ** 63) for i in range(len(segs))]
    ins = []
    for i, (txid, vout, code, seq) in enumerate(t['ins']):
        ti = TxIn(code, txid, vout, sequence=seq)
        if segs[i] is True:
            ti.script_sig = code + amounts[i].to_bytes(8, 'little')
        ins.append(ti)
    tx = TxObj(t['version'], ins, [TxOut(a, s) for a, s in t['outs']], t['locktime'])
    params = [[i, b'\x01\x00\x00\x00', s] for i, s in enumerate(segs) if s is not None]
    got = calculate_preimages(tx, params)
    want = []
    for i, s in enumerate(segs):
        if s is None:
            continue
        code = t['ins'][i][2]
        want.append(txs.bip143_digest(t, i, code, amounts[i]) if s else txs.legacy_digest(t, i, code))
    h.check_eq('digests', got, want)


def hash_type(h):
    from bit.transaction import calculate_preimages, TxObj, TxIn, TxOut
    t = txs.sym_tx(h, ([(0, 30)], [(0, 30)], []), False)
    tx = TxObj(t['version'], [TxIn(c, a, b, sequence=s) for a, b, c, s in t['ins']],
               [TxOut(a, s) for a, s in t['outs']], t['locktime'])
    ht = h.bytes('ht', 4)
    h.assume(ht != b'\x01\x00\x00\x00')
    e, _ = h.attempt(calculate_preimages, tx, [[0, ht, h.fork('seg', [False, True])]])
    h.check('refused', isinstance(e, ValueError))


def make_outputs(h, net, n, msg):
    outs = []
    for i in range(n):
        outs.append((txs.DEST[net][i % 3], h.int('o%d' % i, 1, 21 * 10 ** 14)))
    if msg:
        outs.append((h.blob('msg', 1, 80), 0))
    return outs


def signed(h, net, compressed, kinds, nout, msg):
    """create_new_transaction: parse the result independently and verify every signature"""
    from bit.transaction import create_new_transaction
    from bit.wallet import PrivateKey, PrivateKeyTestnet
    from bit.format import bytes_to_wif
    from coincurve import verify_signature
    from props import ref
    cls = PrivateKey if net == 'main' else PrivateKeyTestnet
    key = hist.shared((net, compressed), lambda: cls(bytes_to_wif((0x77777).to_bytes(32, 'big'), version=net, compressed=compressed)))
    pub = key.public_key
    pkh = ref.hash160(pub)
    redeem = b'\x00\x14' + pkh
    us = []
    for i, k in enumerate(kinds):
        script = ref.p2sh(ref.hash160(redeem)) if k == 'np2wkh' else ref.p2pkh(pkh)
        us.append(txs.unspent(h, i, script, k))
    txs.distinct(h, us)
    outs = make_outputs(h, net, nout, msg)
    raw = bytes.fromhex(create_new_transaction(key, us, outs))
    t = txs.parse(h, raw)
    h.check_eq('inputs', [(a, b, d) for a, b, c, d in t['ins']],
               [(bytes.fromhex(u.txid)[::-1], u.txindex.to_bytes(4, 'little'), u.sequence.to_bytes(4, 'little')) for u in us])
    h.check('segwit flag', t['segwit'] == ('np2wkh' in kinds))
    for i, (k, u) in enumerate(zip(kinds, us)):
        if k == 'np2wkh':
            h.check_eq('scriptSig', t['ins'][i][2], b'\x16' + redeem)
            items = t['wit'][i]
            digest = txs.bip143_digest(t, i, ref.p2pkh(pkh), u.amount)
        else:
            items = txs.pushes(t['ins'][i][2])
            h.check_eq('no witness', t['wit'][i], [])
            digest = txs.legacy_digest(t, i, ref.p2pkh(pkh))
        h.check_eq('items', len(items), 2)
        h.check_eq('public key', items[1], pub)
        h.check_eq('hash type', items[0][-1], 1)
        h.check('signature verifies', verify_signature(items[0][:-1], digest, pub))
    h.reach('signed')


def multisig(h, net, segwit, m, n, order, nin):
    """m of n co-signers one after the other; the final transaction verifies"""
    from bit.transaction import create_new_transaction, sign_tx, deserialize
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from coincurve import verify_signature
    from props import ref
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    keys = [hist.shared((net, i), lambda: kc.from_int(100 + i)) for i in range(n)]
    pubs = [k.public_key for k in keys]
    ms = [hist.shared((net, i, m, n), lambda: mc(k, list(pubs), m)) for i, k in enumerate(keys)]
    redeem = ms[0].redeemscript
    if not isinstance(segwit, list):
        segwit = [segwit] * nin
    us = []
    for i, sw in enumerate(segwit):
        script = ref.p2sh(ref.hash160(b'\x00\x20' + ref.sha256(redeem))) if sw else ref.p2sh(ref.hash160(redeem))
        us.append(txs.unspent(h, i, script, 'np2wsh' if sw else 'p2sh'))
    txs.distinct(h, us)
    outs = make_outputs(h, net, 1, False)
    tx = create_new_transaction(ms[order[0]], us, outs)
    for o in order[1:]:
        tx = sign_tx(ms[o], deserialize(tx), unspents=us)
    t = txs.parse(h, bytes.fromhex(tx))
    for i, u in enumerate(us):
        if segwit[i]:
            h.check_eq('scriptSig', t['ins'][i][2], b'\x22\x00\x20' + ref.sha256(redeem))
            items = t['wit'][i]
            digest = txs.bip143_digest(t, i, redeem, u.amount)
        else:
            items = txs.pushes(t['ins'][i][2])
            digest = txs.legacy_digest(t, i, redeem)
        h.check_eq('item count', len(items), len(order) + 2)
        h.check_eq('dummy', items[0], b'')
        h.check_eq('redeem script', items[-1], redeem)
        for s, o in zip(items[1:-1], sorted(order)):
            h.check_eq('hash type', s[-1], 1)
            h.check('signature verifies in key order', verify_signature(s[:-1], digest, pubs[o]))
    h.reach('signed')


def cases(tier):
    q = tier == 'quick'
    out = [Case('hash_type', hash_type, 'every hash type but SIGHASH_ALL')]
    S, L, E = (0, 120), (240, 260), (0, 0)
    shp = [('1x1', ([S], [S], []), [False]), ('1x1s', ([S], [S], []), [True]),
           ('3x2', ([S, (1, 40), L], [S, L], []), [False, True, False]),
           ('3x2b', ([S, (1, 40), S], [(20, 40), (1, 99)], []), [True, None, True]),
           ('253', ([(1, 3)] + [E] * 252, [(1, 9)], []), [False] + [None] * 252),
           ('300', ([(1, 3)] + [E] * 299, [(1, 9)], []), [None, False] + [None] * 298),
           ('300s', ([(1, 3)] + [E] * 299, [(1, 9)], []), [None, True] + [None] * 298),
           ('o253', ([(1, 3)], [(1, 1)] * 253, []), [False]),
           ('o300', ([(1, 3)], [(1, 1)] * 300, []), [False]),
           ('o300s', ([(1, 3)], [(1, 1)] * 300, []), [True])]
    for name, shape, segs in shp:
        out.append(Case('pre_' + name, preimages, '%d inputs, %d outputs, symbolic scripts' % (len(shape[0]), len(shape[1])),
                        shape=shape, segs=segs))
    for net in ('main', 'test'):
        combos = [(True, ['p2pkh']), (True, ['np2wkh']), (False, ['p2pkh-uncompressed']), (True, ['p2pkh', 'np2wkh']),
                  (True, ['np2wkh', 'p2pkh', 'np2wkh']), (False, ['p2pkh-uncompressed'] * 2)]
        if not q:
            combos += [(True, ['p2pkh'] * 3), (True, ['np2wkh'] * 3), (True, ['p2pkh', 'np2wkh', 'p2pkh', 'np2wkh']),
                       (True, ['np2wkh'] * 5)]
        for comp, kinds in combos:
            for nout, msg in ([(1, False), (3, True)] if q else [(1, False), (2, True), (3, True), (5, False)]):
                out.append(Case('sign_%s_%s_%d%s' % (net, '-'.join(kinds), nout, 'm' if msg else ''), signed,
                                'arbitrary outpoints, amounts, sequences, %d outputs%s' % (nout, ', message of 1..80 bytes' if msg else ''),
                                net=net, compressed=comp, kinds=kinds, nout=nout, msg=msg, must=['signed']))
        ms = [(1, 1, [0]), (1, 2, [1]), (2, 2, [0, 1]), (2, 2, [1, 0]), (2, 3, [2, 0]), (2, 3, [0, 1]), (3, 3, [1, 2, 0])]
        if not q:
            import itertools
            ms = [(m, n, list(o)) for n in (1, 2, 3, 4) for m in range(1, n + 1) for o in itertools.permutations(range(n), m)]
        for m, n, order in ms:
            for segwit in (False, True):
                for nin in ([2] if (q and m == 2 and n == 2) else [1] if q else [1, 2]):
                    out.append(Case('ms_%s_%s_%dof%d_%s_%d' % (net, 'sw' if segwit else 'p2sh', m, n,
                                                               ''.join(map(str, order)), nin), multisig,
                                    '%d-of-%d, signers in order %s, %d inputs' % (m, n, order, nin), net=net, segwit=segwit, m=m,
                                    n=n, order=order, nin=nin, must=['signed']))
        for m, n, order in [(2, 2, [1, 0]), (1, 2, [0])]:
            for mix in ([True, False], [False, True]):
                out.append(Case('ms_%s_mix%d_%dof%d_%s' % (net, mix[0], m, n, ''.join(map(str, order))), multisig,
                                'one segwit and one legacy multisig input', net=net, segwit=mix, m=m, n=n, order=order, nin=2))
        for m, n, order in [(2, 8, [7, 0]), (3, 15, [14, 3, 8])]:
            for sw in (True, False):
                out.append(Case('ms_%s_%dof%d_%d' % (net, m, n, sw), multisig, 'large redeem script', net=net, segwit=sw,
                                m=m, n=n, order=order, nin=1))
    out.append(hist.case('sign', 'two transactions of the same key in a row', [
        (signed, {'net': 'main', 'compressed': True, 'kinds': k, 'nout': n, 'msg': 0}) for k, n in ((['p2pkh'], 1), (['np2wkh', 'p2pkh'], 2))], share=()))
    coins = ['u%d.%s' % (i, f) for i in range(2) for f in ('txid', 'vout', 'seq', 'amount', 'conf')]
    for net in ('main', 'test'):
        out.append(hist.case('again_' + net, 'the same coins spent again by the same wallet, other outputs', [
            (signed, {'net': net, 'compressed': True, 'kinds': ['np2wkh', 'p2pkh'], 'nout': n, 'msg': 0}) for n in (1, 2)], share=coins))
        out.append(hist.case('multi_again_' + net, 'the same multisig coin spent again by the same wallets, another amount', [
            (multisig, {'net': net, 'segwit': net == 'main', 'm': 2, 'n': 2, 'order': [0, 1], 'nin': 1})] * 2, share=coins, reverse=False))
    out.append(hist.case('networks', 'the same key on both networks', [
        (signed, {'net': net, 'compressed': True, 'kinds': ['np2wkh'], 'nout': 1, 'msg': 0}) for net in ('main', 'test')], share=()))
    out.append(hist.case('multi', 'two transactions of the same multisig wallets in a row', [
        (multisig, {'net': 'main', 'segwit': s, 'm': 2, 'n': 2, 'order': [0, 1], 'nin': 1}) for s in (False, True)], share=()))
    return out
