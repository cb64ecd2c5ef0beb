"""C30: send() broadcasts exactly the transaction the same arguments create, on its own network, and returns its id."""
from symbit.common import Case
from props import txs, chain, hist

ASSUMPTIONS = ['ECDSA signing is a deterministic function of key and digest (RFC 6979)', 'hashes are uninterpreted',
               'any number of services refuse the transaction, or cannot be reached, before one accepts it (every combination of them: C20)']


def key(net, kind):
    return hist.shared((net, kind), lambda: new_key(net, kind))


def new_key(net, kind):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, wif_to_key
    k = (PrivateKey if net == 'main' else PrivateKeyTestnet).from_int(4711)
    if kind == 'compressed':
        return k
    from props import ref
    return wif_to_key(ref.b58check((b'\x80' if net == 'main' else b'\xef') + (4711).to_bytes(32, 'big')))


def net_of(h, net, worlds, fees, brief=False):
    """services answering for `worlds`, each refusing or down as drawn; returns what was asked"""
    import requests
    from props import http
    state, asked, log = {}, [], []
    # how many refuse or are down before one accepts
    first = h.fork('services in vain', [1, len(worlds)] if brief else list(range(len(worlds) + 1)))
    how = 'refuse' if brief else h.fork('how', ['refuse', 'down'])

    def handler(req):
        log.append(req)
        if 'mempool.space' in req.url:
            h.check('the recommended fees are asked for', req.url.startswith('https://mempool.space/api/v1/fees/recommended'))
            return http.Response(200, data=fees)
        s = chain.service_of(req.url)
        w = worlds[s]
        if req.method == 'POST':
            if s not in state:
                state[s] = how if len(state) < first else 'up'
            if state[s] == 'down':
                raise requests.exceptions.ConnectionError('down')
            w.accept = state[s] == 'up'
            asked.append(s)
        a = getattr(w, s)(req)
        if a is None:
            raise AssertionError('request this service does not offer: %s %s' % (req.method, req.url))
        return http.Response(a[0], data=a[1], text=a[2])
    http.install(h, handler, 60)
    return state, asked, log


def own_worlds(h, net, w, utxos=()):
    from bit.transaction import address_to_scriptpubkey
    return {s: chain.World(net, address=w.address, script=address_to_scriptpubkey(w.address).hex(), utxos=utxos,
                           balance=sum(u.amount for u in utxos)) for s in chain.SERVICES[net]}


def judge(h, net, worlds, state, e, r, want):
    from props import ref
    pushed = [(s, p) for s in worlds for p in worlds[s].pushed]
    for s, p in pushed:
        h.check_eq('what is broadcast is what is created', p, want)
    acc = [s for s in state if state[s] == 'up']
    if e is None:
        h.check('accepted by one service', len(acc) == 1)
        t = txs.parse(h, bytes.fromhex(want))
        h.check_eq('transaction id', r, ref.dsha256(txs.legacy(t))[::-1].hex())
        h.reach('sent')
    else:
        h.check('no service accepted', len(acc) == 0)
        h.check('every service was tried', set(state) == set(chain.SERVICES[net]))
        h.check('ConnectionError', isinstance(e, ConnectionError))
        h.reach('failed')


def given(h, net, kind, seg, nout, opts, brief=False):
    """the coins are given"""
    from props.c17 import fresh
    from bit.transaction import address_to_scriptpubkey
    from bit.exceptions import InsufficientFunds
    w = key(net, kind)
    us = []
    for i, sw in enumerate(seg):
        addr = w.segwit_address if sw else w.address
        us.append(txs.unspent(h, i, address_to_scriptpubkey(addr), 'np2wkh' if sw else 'p2pkh' if kind == 'compressed' else 'p2pkh-uncompressed'))
    txs.distinct(h, us)
    outs = [(txs.DEST[net][i % 3], h.int('v%d' % i, 1, 21 * 10 ** 14), 'satoshi') for i in range(nout)]
    if brief:
        for u, (_, v, _) in zip(us, outs):
            h.assume(u.amount > v + 10 ** 8)
    kw = dict(fee=h.int('fee', 1, 10000))
    if 'absolute' in opts:
        kw['absolute_fee'] = True
    if 'rbf' in opts:
        kw['replace_by_fee'] = True
    if 'left' in opts:
        kw['leftover'] = txs.DEST[net][2]
    if 'hex' in opts:
        kw.update(message=h.blob('m', 1, 100), message_is_hex=True)
    if 'text' in opts:
        kw['message'] = h.str('m', 3, lo=0, hi=0x7ff)
    if 'bnb' in opts:
        kw['combine'] = False     # with a single coin nothing is drawn at random
    ws = own_worlds(h, net, w)
    state, asked, log = net_of(h, net, ws, {}, brief)
    e0, want = h.attempt(w.create_transaction, list(outs), unspents=[fresh(u) for u in us], **kw)
    h.check_eq('creating a transaction sends nothing', len(log), 0)
    e, r = h.attempt(key(net, kind).send, list(outs), unspents=[fresh(u) for u in us], **kw)
    if e0 is not None:
        h.check('same refusal', isinstance(e0, InsufficientFunds) and isinstance(e, InsufficientFunds))
        h.check_eq('nothing is broadcast', len(log), 0)
        h.reach('refused')
        return
    judge(h, net, ws, state, e, r, want)


def fetched(h, net, kind, nfee):
    """the coins, and perhaps the fee rate, come from the services"""
    from bit.exceptions import InsufficientFunds
    w = key(net, kind)
    coins = [chain.Utxo(i, h.int('u%d' % i, 1, 21 * 10 ** 14), h.int('c%d' % i, 0, 1000), i) for i in range(2)]
    ws = own_worlds(h, net, w, coins)
    rate = h.int('rate', 1, 10000)
    fees = {'fastestFee': rate, 'halfHourFee': h.int('half', 1, 10000), 'hourFee': h.int('hour', 1, 10000)}
    for s in ws.values():
        own(s, getattr(w, 'segwit_address', None))
    outs = [(txs.DEST[net][0], h.int('v0', 1, 21 * 10 ** 14), 'satoshi')]
    state, asked, log = net_of(h, net, ws, fees)
    kw = {} if nfee else {'fee': rate}
    e0, want = h.attempt(key(net, kind).create_transaction, list(outs), fee=rate)
    e, r = h.attempt(w.send, list(outs), **kw)
    if e0 is not None:
        h.check('same refusal', isinstance(e0, InsufficientFunds) and isinstance(e, InsufficientFunds))
        h.check('nothing is broadcast', all(q.method != 'POST' for q in log))
        h.reach('refused')
        return
    ins = [bytes(i[0])[::-1].hex() + ':' + str(int.from_bytes(i[1], 'little')) for i in txs.parse(h, bytes.fromhex(want))['ins']]
    h.check_eq('the known coins are spent', sorted(ins), sorted('%s:%d' % (c.txid, c.vout) for c in coins))
    judge(h, net, ws, state, e, r, want)


def again(h, net, kind):
    """one wallet sends twice, with other coins at the services by then: the second transaction spends those"""
    w = key(net, kind)
    sent = []
    for part in ('a', 'b'):
        coins = [chain.Utxo((7 if part == 'b' else 0) + i, h.int('%su%d' % (part, i), 10 ** 9, 21 * 10 ** 14), h.int('%sc%d' % (part, i), 0, 1000), i) for i in range(2)]
        ws = own_worlds(h, net, w, coins)
        for s in ws.values():
            own(s, getattr(w, 'segwit_address', None))
        state, asked, log = net_of(h, net, ws, {}, True)
        e, r = h.attempt(w.send, [(txs.DEST[net][0], h.int(part + 'v', 1, 10 ** 8), 'satoshi')], fee=h.int(part + 'fee', 1, 1000))
        pushed = [p for s in ws for p in ws[s].pushed]
        h.check('pushed', len(pushed) > 0)
        for p in pushed:
            ins = [bytes(i[0])[::-1].hex() + ':' + str(int.from_bytes(i[1], 'little')) for i in txs.parse(h, bytes.fromhex(p))['ins']]
            h.check_eq('the coins known now are spent', sorted(ins), sorted('%s:%d' % (c.txid, c.vout) for c in coins))
        judge(h, net, ws, state, e, r, pushed[0])


def own(world, segwit):
    """nothing is held by the wallet's segwit address"""
    if segwit is None:
        return
    for s in chain.SERVICES[world.net]:
        def answer(req, s=s, f=getattr(world, s)):
            if req.method == 'POST' or segwit not in req.url and segwit not in str(req.query):
                return f(req)
            a, u, t = world.address, world.utxos, world.balance
            world.address, world.utxos, world.balance = segwit, [], 0
            try:
                return getattr(type(world), s)(world, req)
            finally:
                world.address, world.utxos, world.balance = a, u, t
        setattr(world, s, answer)


def cases(tier):
    q = tier == 'quick'
    out = []
    for net in ('main', 'test'):
        conf = [('compressed', [False], 1, ()), ('compressed', [True], 2, ('rbf', 'left')), ('compressed', [False, True], 1, ('absolute',)),
                ('compressed', [False], 0, ('hex',)), ('compressed', [True], 1, ('text', 'left')), ('uncompressed', [False], 1, ()),
                ('uncompressed', [False, False], 2, ('rbf', 'absolute', 'hex')), ('compressed', [True], 1, ('bnb',)),
                ('compressed', [False], 1, ('hex', 'left', 'absolute')), ('compressed', [False], 1, ('text', 'left', 'rbf')), ('uncompressed', [False], 1, ('bnb', 'left', 'hex'))]
        if not q:
            conf += [('compressed', [a, b, c], n, o) for a in (False, True) for b in (False, True) for c in (False, True) for n, o in
                     [(1, ('rbf', 'hex', 'left')), (2, ('absolute', 'text')), (3, ('rbf', 'text', 'left'))]]
            conf += [('uncompressed', [False] * n, n, o) for n in (2, 3) for o in (('left', 'text'), ('rbf',))]
        for i, (kind, seg, nout, opts) in enumerate(conf):
            out.append(Case('given_%s_%d' % (net, i), given, '%s key, inputs segwit=%s, %d outputs, options %s; any amounts, outpoints, fee; any number of services '
                            'refusing or down' % (kind, seg, nout, opts), net=net, kind=kind, seg=seg, nout=nout, opts=opts,
                            must=['sent', 'failed', 'refused'], weight=3))
        for kind in ('compressed', 'uncompressed'):
            for nfee in (False, True):
                out.append(Case('fetched_%s_%s_%d' % (net, kind, nfee), fetched, 'two coins known to the services, any amounts%s; any number of services refusing or down'
                                % (', any recommended fee' if nfee else ''), net=net, kind=kind, nfee=nfee, must=['sent', 'failed', 'refused'], weight=5))
            out.append(Case('again_%s_%s' % (net, kind), again, 'two sends by one wallet, two coins each, any amounts', net=net, kind=kind, must=['sent', 'failed']))
    for net in ('main', 'test'):
        out.append(hist.case('send_' + net, 'two sends in a row, any number of services refusing or down in each',
                             [(given, {'net': net, 'kind': 'compressed', 'seg': [s], 'nout': 1, 'opts': (), 'brief': True}) for s in (False, True)], share=(), weight=9))
    out.append(hist.case('nets', 'a send on each network', [(given, {'net': n, 'kind': 'compressed', 'seg': [False], 'nout': 1, 'opts': ('rbf',), 'brief': True})
                                                           for n in ('main', 'test')], share=(), weight=9))
    return out
