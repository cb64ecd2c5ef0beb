"""C23: a wallet reports exactly the unspents, balance and transactions of its own addresses, and can spend what it reports."""
from symbit.common import Case
from props import chain, txs, hist

ASSUMPTIONS = ['web services answer (faults: C20, C21)', 'concrete private keys', 'low-S DER signatures of at most 71 bytes']
SATS = 21 * 10 ** 14


class Several:
    """worlds of several addresses behind one service"""

    def __init__(self, worlds):
        self.worlds = worlds

    def __getattr__(self, s):
        def f(req):
            for w in self.worlds:
                a = getattr(w, s)(req)
                if a is not None:
                    return a
        return f


def wallet(net, kind):
    return hist.shared((net, kind), lambda: new_wallet(net, kind))


def new_wallet(net, kind):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from bit.format import bytes_to_wif
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    if kind == 'compressed':
        return kc.from_int(4711)
    if kind == 'uncompressed':
        return kc(bytes_to_wif((4711).to_bytes(32, 'big'), version=net, compressed=False))
    m, n = kind
    keys = [kc.from_int(50 + i) for i in range(n)]
    return mc(keys[0], [k.public_key for k in keys], m)


def addresses(w, kind):
    """(address, script, type) by the reference"""
    from props import ref
    net = 'main' if w.version == 'main' else 'test'
    vp, vs = (b'\x00', b'\x05') if net == 'main' else (b'\x6f', b'\xc4')
    if isinstance(kind, str):
        pkh = ref.hash160(w.public_key)
        out = [(ref.b58check(vp + pkh), ref.p2pkh(pkh), 'p2pkh' if kind == 'compressed' else 'p2pkh-uncompressed')]
        if kind == 'compressed':
            sh = ref.hash160(b'\x00\x14' + pkh)
            out.append((ref.b58check(vs + sh), ref.p2sh(sh), 'np2wkh'))
        return out
    h1 = ref.hash160(w.redeemscript)
    h2 = ref.hash160(b'\x00\x20' + ref.sha256(w.redeemscript))
    return [(ref.b58check(vs + h1), ref.p2sh(h1), 'p2sh'), (ref.b58check(vs + h2), ref.p2sh(h2), 'np2wsh')]


def world(h, net, addrs, counts, rnd=0, syms=True, amount=None):
    """every service knows the same about every address"""
    ws = []
    for j, ((a, script, typ), n) in enumerate(zip(addrs, counts)):
        us = []
        for i in range(n):
            p = 'r%d.a%d.u%d.' % (rnd, j, i)
            vout, tx = chain.outpoint(h, i, n, p + 'vout')
            us.append(chain.Utxo(100 * rnd + 10 * j + i, h.int(p + 'amount', *(amount or (1, SATS))), h.int(p + 'conf', 0, 10 ** 5) if syms else 3 + i,
                                 vout, 100 * rnd + 10 * j + tx))
        w = chain.World(net, utxos=us, txids=[chain.txid(5000 + 1000 * rnd + 100 * j + i) for i in range(n)], address=a, script=script.hex(), tip=10 ** 6)
        import decimal
        w.fmt = lambda x: str(decimal.Decimal(x).scaleb(-8))
        ws.append(w)
    return ws


def check_wallet(h, w, got, ws, addrs):
    want = [(u.txid, u, x, t) for x, (a, s, t) in zip(ws, addrs) for u in x.utxos]
    want.sort(key=lambda e: chain.place(e[0], e[1].vout))
    got = sorted(got, key=lambda u: chain.place(u.txid, u.txindex))
    h.check_eq('unspents', [u.txid for u in got], [e[0] for e in want])
    for u, (tid, v, x, t) in zip(got, want):
        h.check_eq('unspent', (u.amount, u.confirmations, u.txindex, u.script), (v.amount, v.confirmations, v.vout, x.script))
        h.check_eq('type', u.type, t)
        h.check_eq('segwit', u.segwit, t in ('np2wkh', 'np2wsh'))


def report(h, net, kind, counts):
    """fetching twice, with different answers: the second answer replaces the first"""
    w = wallet(net, kind)
    addrs = addresses(w, kind)
    cur = {}
    log = chain.serve(h, {s: Several(cur.setdefault('w', [])) for s in chain.SERVICES[net]})
    for rnd, cs in enumerate(counts):
        ws = world(h, net, addrs, cs, rnd)
        cur['w'][:] = ws
        us = w.get_unspents()
        check_wallet(h, w, us, ws, addrs)
        check_wallet(h, w, w.unspents, ws, addrs)
        total = sum(u.amount for x in ws for u in x.utxos)
        h.check_eq('balance', w.balance, total)
        ts = w.get_transactions()
        h.check_eq('transactions', sorted(ts), sorted(t for x in ws for t in x.txids))
        h.check_eq('transactions kept', list(w.transactions), list(ts))


def text(h, net, kind, cur):
    """get_balance fetches and formats"""
    w = wallet(net, kind)
    addrs = addresses(w, kind)
    ws = world(h, net, addrs, (1, 1), syms=False, amount=(1, 10 ** 6))
    chain.serve(h, {s: Several(ws) for s in chain.SERVICES[net]})
    w.balance = 77
    total = sum(u.amount for x in ws for u in x.utxos)
    from bit.network import satoshi_to_currency
    e, r = h.attempt(w.get_balance, *([] if cur is None else [cur]))
    h.check('no error', e is None)
    want = str(total) if cur in (None, 'satoshi') else satoshi_to_currency(total, cur)
    h.check_eq('fetched balance', r, want)
    h.check_eq('same balance', w.balance_as(cur or 'satoshi'), want)


def spend(h, net, kind, counts, rate):
    """a transaction from fetched unspents spends exactly those, is signed by the wallet and pays the requested fee rate"""
    from bit.exceptions import InsufficientFunds
    from props import ref
    w = wallet(net, kind)
    addrs = addresses(w, kind)
    ws = world(h, net, addrs, counts, syms=False, amount=(10 ** 6, SATS))
    chain.serve(h, {s: Several(ws) for s in chain.SERVICES[net]})
    fee = h.int('fee', 1, rate)
    v = h.int('v', 1, SATS)
    e, tx = h.attempt(w.create_transaction, [(txs.DEST[net][0], v, 'satoshi')], fee=fee)
    us = [u for x in ws for u in x.utxos]
    total = sum(u.amount for u in us)
    if e is not None:
        h.check('only InsufficientFunds', isinstance(e, InsufficientFunds))
        h.reach('insufficient')
        return
    if not isinstance(kind, str):
        m, n = kind
        kc = type(wallet(net, 'compressed'))
        keys = [kc.from_int(50 + i) for i in range(n)]
        for j in range(1, m):
            other = type(w)(keys[j], [k.public_key for k in keys], m)
            tx = other.sign_transaction(tx, unspents=list(w.unspents))
    t = txs.parse(h, bytes.fromhex(tx))
    h.check_eq('inputs', sorted(h.value(a[::-1].hex()) for a, b, c, d in t['ins']), sorted(u.txid for u in us))
    outs = [int.from_bytes(a, 'little') for a, s in t['outs']]
    paid = total - sum(outs)
    weight = 3 * len(txs.legacy(t)) + len(bytes.fromhex(tx))
    siglens = []
    for (a, b, sig, d), wit in zip(t['ins'], t['wit']):
        items = wit if wit else txs.pushes(sig)
        for it in items[:-1] if isinstance(kind, str) else items[1:-1]:
            siglens.append(len(it))
    for n in siglens:
        h.assume(n <= 72)
        h.assume(n >= 70)
    h.check('fee rate is paid', 4 * paid >= fee * weight)
    if len(outs) > 1:
        h.check('no more than the fee rate, within the estimate of the signature sizes', 4 * paid <= fee * (weight + 8 + 24 * len(siglens) + 4 * len(t['ins'])))
    h.check_eq('scripts signed', len(siglens), len(us) * (1 if isinstance(kind, str) else kind[0]))
    h.reach('created')


def current(h, net, kind, before, now):
    """a transaction created after coins came or went spends the coins the services report then, not those fetched before"""
    w = wallet(net, kind)
    addrs = addresses(w, kind)
    cur = []
    chain.serve(h, {s: Several(cur) for s in chain.SERVICES[net]})
    cur[:] = world(h, net, addrs, before, 0, syms=False, amount=(10 ** 6, SATS))
    op = h.fork('first', ['get_unspents', 'get_balance', 'create'])
    if op == 'create':
        w.create_transaction([(txs.DEST[net][0], 1000, 'satoshi')], fee=1)
    else:
        getattr(w, op)()
    cur[:] = world(h, net, addrs, now, 1, syms=False, amount=(10 ** 6, SATS))
    e, tx = h.attempt(w.create_transaction, [(txs.DEST[net][0], h.int('v', 600, 10 ** 5), 'satoshi')], fee=1)
    h.check('created', e is None)
    t = txs.parse(h, bytes.fromhex(tx))
    h.check_eq('inputs', sorted(h.value(a[::-1].hex()) for a, b, c, d in t['ins']), sorted(u.txid for x in cur for u in x.utxos))
    paid = sum(u.amount for x in cur for u in x.utxos) - sum(int.from_bytes(a, 'little') for a, s in t['outs'])
    h.check('only a fee is lost', h.all([paid > 0, paid < 5000]))


def cases(tier):
    q = tier == 'quick'
    out = []
    for net in ('main', 'test'):
        for kind in ('compressed', 'uncompressed', (1, 2), (2, 2), (2, 3)):
            name = kind if isinstance(kind, str) else '%dof%d' % kind
            for counts in ([(1, 1), (0, 1)], [(0, 0), (1, 0)], [(2, 1), (1, 2)]) + (() if q else ([(2, 2), (2, 2)],)):
                out.append(Case('report_%s_%s_%s' % (net, name, '_'.join('%d%d' % c for c in counts)), report,
                                'every amount, confirmation count and index', net=net, kind=kind, counts=counts))
            for cur in (None, 'satoshi', 'btc'):
                out.append(Case('text_%s_%s_%s' % (net, name, cur), text, 'every amount up to 1e6', net=net, kind=kind, cur=cur))
            for before, now in (((1, 1), (1, 1)), ((1, 0), (2, 0))):
                out.append(Case('current_%s_%s_%d%d' % ((net, name) + now), current, 'every amount', net=net, kind=kind, before=before, now=now))
            for counts in ((1, 0), (0, 1), (1, 1)) + (() if q else ((2, 1), (1, 2))):
                if kind == 'uncompressed' and counts[0] == 0:
                    continue
                out.append(Case('spend_%s_%s_%d%d' % ((net, name) + counts), spend, 'every amount, fee rate up to 1000', net=net, kind=kind, counts=counts,
                                rate=1000, must=['created', 'insufficient']))
    return out
