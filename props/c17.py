"""C17: preparing a transaction online and signing it offline yields the transaction that direct creation yields."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['UTXOs carry their type (as returned by get_unspents)', 'ECDSA signing is a deterministic function of key and digest (RFC 6979)',
               'hashes are uninterpreted']


def fresh(u):
    from bit.network.meta import Unspent
    return Unspent(u.amount, u.confirmations, u.script, u.txid, u.txindex, type=u.type, vsize=u.vsize, sequence=u.sequence)


def same(h, kind, net, seg, nout, msg, rbf, absolute, left, seq=True):
    from props.c15 import wallet
    from bit.transaction import address_to_scriptpubkey
    from bit.exceptions import InsufficientFunds
    w = wallet(kind, net)
    us = []
    for i, sw in enumerate(seg):
        addr = w.segwit_address if sw else w.address
        typ = ('np2wkh' if kind == 'single' else 'np2wsh') if sw else ('p2pkh' if kind == 'single' else 'p2sh')
        us.append(txs.unspent(h, i, address_to_scriptpubkey(addr), typ, seq=seq))
    txs.distinct(h, us)
    outs = [(txs.DEST[net][i % 3], h.int('v%d' % i, 1, 21 * 10 ** 14), 'satoshi') for i in range(nout)]
    kw = dict(fee=h.int('fee', 1, 10000), absolute_fee=absolute, replace_by_fee=rbf, leftover=left)
    if msg == 'long':
        kw.update(message=h.bytes('m', 160), message_is_hex=True)
    elif msg == 'hex':
        kw.update(message=h.blob('m', 1, 100), message_is_hex=True)
    elif msg:
        kw.update(message=h.str('m', msg, lo=0, hi=0x7ff))
    if left is None:
        kw['leftover'] = w.segwit_address if any(seg) else w.address
    e1, direct = h.attempt(w.create_transaction, list(outs), unspents=[fresh(u) for u in us],
                           **dict(kw, leftover=left))
    e2, data = h.attempt(type(w).prepare_transaction, w.address, list(outs), unspents=[fresh(u) for u in us], **kw)
    h.check('both refuse or both accept', h.eq(e1 is None, e2 is None))
    if e1 is not None:
        h.check('same refusal', isinstance(e1, InsufficientFunds) and isinstance(e2, InsufficientFunds))
        h.reach('refused')
        return
    h.check('prepared data is text', isinstance(data, str))
    tx = wallet(kind, net).sign_transaction(data)
    h.check_eq('same transaction', tx, direct)
    h.reach('same')


def change_home(h, kind, net, seg):
    """without a leftover address, prepared change goes to the address the funds come from"""
    import json
    from props.c15 import wallet
    from bit.transaction import address_to_scriptpubkey
    w = wallet(kind, net)
    addr = w.segwit_address if seg else w.address
    typ = ('np2wkh' if kind == 'single' else 'np2wsh') if seg else ('p2pkh' if kind == 'single' else 'p2sh')
    u = txs.unspent(h, 0, address_to_scriptpubkey(addr), typ)
    v = h.int('v', 1, 10 ** 8)
    h.assume(u.amount > 10 ** 9)
    data = type(w).prepare_transaction(addr, [(txs.DEST[net][0], v, 'satoshi')], fee=h.int('fee', 1, 100), unspents=[u])
    outs = json.loads(data)['outputs']
    h.check_eq('payment', list(outs[0]), [txs.DEST[net][0], v])
    h.check_eq('change', outs[1][0], addr)


def cosign(h, net, seg, m, n):
    """multisig: prepared, then signed by one wallet after the other, equals direct creation and co-signing"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from bit.transaction import address_to_scriptpubkey
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    keys = [hist.shared((net, i), lambda: kc.from_int(100 + i)) for i in range(n)]
    pubs = [k.public_key for k in keys]
    ws = [hist.shared((net, i, m, n), lambda: mc(k, list(pubs), m)) for i, k in enumerate(keys)]
    addr = ws[0].segwit_address if seg else ws[0].address
    u = txs.unspent(h, 0, address_to_scriptpubkey(addr), 'np2wsh' if seg else 'p2sh')
    h.assume(u.amount > 10 ** 9)
    outs = [(txs.DEST[net][1], h.int('v', 1, 10 ** 8), 'satoshi')]
    fee = h.int('fee', 1, 100)
    direct = ws[0].create_transaction(list(outs), fee=fee, unspents=[fresh(u)], leftover=addr)
    tx = ws[0].sign_transaction(mc.prepare_transaction(addr, list(outs), fee=fee, unspents=[fresh(u)]))
    for w in ws[1:m]:
        direct = w.sign_transaction(direct, unspents=[u])
        tx = w.sign_transaction(tx, unspents=[u])
    h.check_eq('same transaction', tx, direct)
    t = txs.parse(h, bytes.fromhex(tx))
    items = t['wit'][0] if seg else txs.pushes(t['ins'][0][2])
    h.check_eq('signatures', len(items), m + 2)
    h.check('none missing', h.all([len(x) > 60 for x in items[1:]]))
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    for net in ('main', 'test'):
        L = txs.DEST[net][2]
        for kind in ('single', 'multi'):
            conf = [([False], 1, None, False, False, None), ([True], 2, None, True, True, L), ([False, True], 1, 'hex', False, False, L),
                    ([True, False], 3, 2, True, False, None), ([False, False], 1, 2, False, True, None), ([True, True], 0, 'hex', True, False, L),
                    ([False], 2, 'long', False, False, None)]
            if not q:
                conf += [([a, b, c], n, m, r, ab, l) for a in (0, 1) for b in (0, 1) for c in (0, 1) for n, m, r, ab, l in
                         [(1, None, True, False, None), (2, 'hex', False, True, L), (1, 81, True, True, None)]]
                conf = [([bool(x) for x in c[0]],) + tuple(c[1:]) for c in conf]
            for i, (seg, nout, msg, rbf, ab, left) in enumerate(conf):
                out.append(Case('same_%s_%s_%d' % (net, kind, i), same, 'inputs segwit=%s, %d outputs, message=%s, rbf=%s, absolute=%s; any amounts, '
                                'outpoints, sequences, fee' % (seg, nout, msg, rbf, ab), kind=kind, net=net, seg=seg, nout=nout, msg=msg,
                                rbf=rbf, absolute=ab, left=left, must=['same']))
            for seg in (False, True):
                out.append(Case('change_%s_%s_%d' % (net, kind, seg), change_home, 'default change address', kind=kind, net=net, seg=seg))
        for seg in (False, True):
            for m, n in [(1, 2), (2, 2), (2, 3), (3, 3)]:
                out.append(Case('cosign_%s_%d_%dof%d' % (net, seg, m, n), cosign, '%d of %d' % (m, n), net=net, seg=seg, m=m, n=n, must=['done']))
    out.append(hist.case('same', 'two prepared transactions in a row', [
        (same, {'kind': 'single', 'net': 'main', 'seg': [False], 'nout': 1, 'msg': None, 'rbf': r, 'absolute': False, 'left': None}) for r in (True, False)], share=()))
    return out
