"""C24: an Unspent survives its dictionary form, and opting in to replace-by-fee reaches the signed transaction."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['every type name of UNSPENT_TYPES and any other text of up to 12 characters', 'concrete private keys']
TYPES = {'unknown': (None, 180), 'p2pkh-uncompressed': (False, 180), 'p2pkh': (False, 148), 'p2sh': (False, 298), 'np2wkh': (True, 91),
         'np2wsh': (True, 140), 'p2wkh': (True, 68), 'p2wsh': (True, 105)}
FIELDS = ('amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence')


def any_unspent(h, typ, p=''):
    from bit.network.meta import Unspent
    return Unspent(h.int(p + 'amount', 0, 21 * 10 ** 14), h.int(p + 'conf', 0, 10 ** 7), h.blob(p + 'script', 0, 60).hex(), h.bytes(p + 'txid', 32).hex(),
                   h.int(p + 'vout', 0, 2 ** 32 - 1), type=typ, vsize=h.int(p + 'vsize', 0, 10 ** 4), sequence=h.int(p + 'seq', 0, 2 ** 32 - 1))


def trip(h, typ, js):
    import json
    from bit.network.meta import Unspent
    u = any_unspent(h, typ)
    d = u.to_dict()
    h.check_eq('keys', sorted(d), sorted(FIELDS))
    if js:
        d = json.loads(json.dumps(d))
    v = Unspent.from_dict(d)
    for f in FIELDS:
        h.check_eq(f, getattr(v, f), getattr(u, f))
    h.check('equal', v == u)
    h.check_eq('segwit of the type', v.segwit, TYPES[typ][0])


def typed(h):
    """any other type name is unknown; sizes default to the type's"""
    from bit.network.meta import Unspent
    n = h.fork('n', 13)
    t = h.str('t', n, lo=32, hi=126)
    vs = h.int('vsize', 0, 10 ** 4)
    u = Unspent(1, 1, 'aa', 'ab' * 32, 0, type=t, vsize=vs)
    v = Unspent(1, 1, 'aa', 'ab' * 32, 0)
    h.check('set_type returns the unspent', v.set_type(t, vs) is v)
    known = [k for k in TYPES if len(k) == n and h.any([t == k])]
    k = known[0] if known else 'unknown'
    for x in (u, v):
        h.check_eq('type', x.type, k)
        h.check_eq('segwit', x.segwit, TYPES[k][0])
        if vs == 0:
            h.check_eq('default size', x.vsize, TYPES[k][1])
        else:
            h.check_eq('given size', x.vsize, vs)
    if known:
        h.reach('known')


def equal(h):
    """equal exactly if they are the same output, spent the same way"""
    a, b = any_unspent(h, 'p2pkh', 'a.'), any_unspent(h, 'p2pkh', 'b.')
    if h.fork('same script', 2):
        b.script = a.script
    if h.fork('same id', 2):
        b.txid = a.txid
    same = h.all([a.amount == b.amount, a.script == b.script, a.txid == b.txid, a.txindex == b.txindex, a.sequence == b.sequence])
    h.check('equality', (a == b) == same)


def optin(h):
    """opting in signals replaceability (BIP 125) and never weakens an existing signal"""
    from bit.network.meta import Unspent
    s = h.int('seq', 0, 2 ** 32 - 1)
    u = Unspent(1, 1, 'aa', 'ab' * 32, 0, sequence=s)
    u.opt_in_for_RBF()
    h.check('signals replaceability', u.sequence <= 0xfffffffd)
    if s <= 0xfffffffd:
        h.check_eq('kept', u.sequence, s)


def rbf(h, net, kind, how, n):
    """sequence numbers of the signed transaction"""
    from bit.exceptions import InsufficientFunds
    from props.c15 import wallet, utxo
    w = wallet(kind, net)
    us, seqs = [], {}
    for i in range(n):
        u = utxo(h, w, i, segwit=i == 1)
        u.txid = '%064x' % (0xabcd01 + i)
        u.sequence = h.int('s%d' % i, 0, 2 ** 32 - 1)
        seqs[u.txid] = u.sequence
        us.append(u)
    flag = h.fork('rbf', 2) == 1
    kw = dict(fee=h.int('fee', 1, 100), unspents=us, replace_by_fee=flag)
    outs = [(txs.DEST[net][0], h.int('v', 1, 10 ** 12), 'satoshi')]
    if how == 'create':
        e, tx = h.attempt(w.create_transaction, outs, **kw)
    else:
        e, p = h.attempt(type(w).prepare_transaction, w.address, outs, **kw)
        if e is None:
            e, tx = h.attempt(w.sign_transaction, p)
    if e is not None:
        h.check('only InsufficientFunds', isinstance(e, InsufficientFunds))
        return
    t = txs.parse(h, bytes.fromhex(tx))
    h.check_eq('inputs', len(t['ins']), n)
    for a, b, c, d in t['ins']:
        s0 = seqs[h.value(a[::-1].hex())]
        s1 = int.from_bytes(d, 'little')
        if flag:
            h.check('replaceable', s1 <= 0xfffffffd)
            h.check('existing signal kept', h.any([s1 == s0, s0 > 0xfffffffd]))
        else:
            h.check_eq('sequence', s1, s0)
    h.reach('rbf' if flag else 'plain')


def default_final(h, net):
    """by default inputs are final"""
    from bit.network.meta import Unspent
    h.check_eq('final', Unspent(h.int('a', 0, 5), 1, 'aa', 'ab' * 32, 0).sequence, 0xffffffff)


def cases(tier):
    q = tier == 'quick'
    out = [Case('types', typed, 'every text of up to 12 printable characters', must=['known']), Case('equal', equal, 'every pair'),
           Case('optin', optin, 'every sequence number'), Case('default', default_final, '', net='main')]
    for t in TYPES:
        for js in (0, 1):
            out.append(Case('trip_%s_%d' % (t, js), trip, 'every field value', typ=t, js=js))
    for net in ('main', 'test'):
        for kind in ('single', 'multi'):
            for how in ('create', 'prepare'):
                for n in (1, 2) if q else (1, 2, 3):
                    out.append(Case('rbf_%s_%s_%s_%d' % (net, kind, how, n), rbf, 'every sequence number of %d inputs' % n, net=net, kind=kind, how=how, n=n,
                                    must=['rbf', 'plain']))
    for a, b in (('create', 'create'),):
        out.append(hist.case('rbf', 'two transactions in a row, with and without replace-by-fee', [
            (rbf, {'net': 'main', 'kind': 'single', 'how': x, 'n': 1}) for x in (a, b)], share=(), reverse=False))
    out.append(hist.case('dict', 'two unspents through their dictionary form', [(trip, {'typ': 'p2pkh', 'js': 1}), (trip, {'typ': 'np2wkh', 'js': 0})], share=()))
    return out
