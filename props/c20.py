"""C20: a network query is answered by some reachable service, and only fails, with ConnectionError, if none can answer."""
from symbit.common import Case
from props import chain, hist

ASSUMPTIONS = ['a service is reachable and answers completely, or fails in one of: connection error, timeout, read timeout, an HTTP error status, or an answer '
               'the service had to cut off',
               'which services fail, and how, is arbitrary; every service knows something different']

OPS = {'balance': 'get_balance', 'transactions': 'get_transactions', 'tx': 'get_transaction_by_id', 'unspent': 'get_unspent'}
OFFER = {'balance': {'main': ['blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'], 'test': ['blockchair', 'blockstream', 'bitcore', 'smartbit']},
         'transactions': {'main': ['blockchair', 'blockstream', 'smartbit', 'blockchain'], 'test': ['blockchair', 'blockstream', 'smartbit']},
         'tx': {'main': ['blockchair', 'blockstream', 'smartbit', 'blockchain'], 'test': ['blockchair', 'blockstream', 'smartbit']},
         'unspent': {'main': ['blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'], 'test': ['blockchair', 'blockstream', 'bitcore', 'smartbit']}}


def worlds(h, net):
    import decimal
    out = {}
    for i, s in enumerate(chain.SERVICES[net]):
        u = chain.Utxo(i, h.int(s + '.amount', 1, 21 * 10 ** 14), h.int(s + '.conf', 0, 10 ** 5), h.int(s + '.vout', 0, 1000))
        w = chain.World(net, balance=h.int(s + '.balance', 0, 21 * 10 ** 14), utxos=[u], txids=[chain.txid(100 + i)], raw='%02x' % i * 60,
                        tip=10 ** 6)
        if s == 'smartbit':
            w.fmt = lambda a: str(decimal.Decimal(a).scaleb(-8))
        out[s] = w
    return out


def excessive(s, op, net, k):
    """how services answer for addresses too big for them: None for a normal first answer, False if the service has no such answer"""
    from props import http
    if s == 'blockstream' and op == 'unspent' and net == 'main':
        return None if k == 0 else http.Response(400, text='Too many history entries')
    if s == 'blockstream' and op == 'transactions' and net == 'main':
        return http.Response(200, [{'txid': chain.txid(i)} for i in range(50)])
    if s == 'blockchain' and op == 'unspent':
        return http.Response(200, {'unspent_outputs': [{'value': 1000 + i, 'confirmations': 3, 'script': '51', 'tx_hash_big_endian': chain.txid(i), 'tx_output_n': 0}
                                                       for i in range(1000)]})
    return False


def down(h, name, kind, s=None, op=None, net=None, i=0):
    from props import http
    import requests
    k = h.fork(name, 4) if kind is None else kind
    if k == 4:
        r = excessive(s, op, net, i)
        if r is not False:
            return r
    if k == 0:
        raise requests.exceptions.ConnectionError('down')
    if k == 1:
        raise requests.exceptions.Timeout('slow')
    if k == 2:
        raise requests.exceptions.ReadTimeout('slow')
    status = h.int(name + '.status', 401, 599)
    h.assume(h.any([status == 401, status == 403, status == 429, status > 500]))
    return http.Response(status)


def query(h, op, net, late, kind):
    """late: the failure hits the second request to a service rather than the first"""
    from bit.network import NetworkAPI
    ws = worlds(h, net)
    if op in ('transactions', 'unspent') and h.fork('nothing there', 2):
        for w in ws.values():
            w.utxos, w.txids = [], []
    failed = {}

    def fault(s, k, req):
        if s not in failed:
            failed[s] = h.fork(s + '.down', 2) == 1
        if failed[s] and k >= (1 if late else 0):
            return down(h, '%s.kind%d' % (s, k), kind, s, op, net, k)

    log = chain.serve(h, ws, fault)
    f = getattr(NetworkAPI, OPS[op] + ('' if net == 'main' else '_testnet'))
    e, r = h.attempt(f, chain.TXID if op == 'tx' else chain.ADDR[net])
    asked = []
    for q in log:
        s = chain.service_of(q.url)
        if s not in asked:
            asked.append(s)
    if e is not None:
        h.check('only ConnectionError', isinstance(e, ConnectionError))
        h.check('every service was asked', set(asked) >= set(OFFER[op][net]))
        h.check('none can answer', all(failed[s] for s in asked))
        h.reach('failed')
        return
    s = asked[-1]
    w = ws[s]
    h.check('earlier services had failed', all(failed[x] for x in asked[:-1]))
    if op == 'balance':
        h.check_eq('answer of that service', r, w.balance)
    elif op == 'transactions':
        h.check_eq('answer of that service', list(r), w.txids)
    elif op == 'tx':
        h.check_eq('answer of that service', r, w.raw)
    else:
        chain.check_unspents(h, r, w.utxos, w.script)
    h.reach('answered')
    if len(asked) > 1:
        h.reach('failover')


def broadcast(h, net, kind):
    from bit.network import NetworkAPI
    ws = worlds(h, net)
    state = {}

    def fault(s, k, req):
        h.check('one broadcast per service', k == 0)
        state[s] = h.fork(s, ['up', 'reject', 'down'])
        if state[s] == 'down':
            return down(h, s + '.kind', kind)
        ws[s].accept = state[s] == 'up'

    tx = h.blob('tx', 60, 200).hex()
    log = chain.serve(h, ws, fault)
    f = NetworkAPI.broadcast_tx if net == 'main' else NetworkAPI.broadcast_tx_testnet
    e, r = h.attempt(f, tx)
    acc = [s for s in state if state[s] == 'up']
    if e is None:
        h.check('accepted by a service', len(acc) == 1)
        h.reach('accepted')
    else:
        h.check('only ConnectionError', isinstance(e, ConnectionError))
        h.check('accepted by none', len(acc) == 0)
        h.check('every service was asked', set(state) >= set(chain.SERVICES[net]))
        h.reach('failed')
    for s in state:
        if state[s] != 'down':
            h.check_eq('the transaction is passed on unchanged', ws[s].pushed, [tx])


def send(h, net):
    """send() broadcasts the created transaction and returns its id, or raises"""
    from props import txs, ref
    from props.c15 import wallet, utxo
    w = wallet('single', net)
    ws = worlds(h, net)
    up = h.fork('up', 2)

    def fault(s, k, req):
        ws[s].accept = up == 1

    chain.serve(h, ws, fault)
    u = utxo(h, w)
    h.assume(u.amount > 10 ** 9)
    e, r = h.attempt(w.send, [(txs.DEST[net][0], h.int('v', 1, 10 ** 8), 'satoshi')], fee=5, unspents=[u])
    pushed = [p for s in ws for p in ws[s].pushed]
    h.check('pushed', len(pushed) > 0)
    if up:
        h.check('no error', e is None)
        t = txs.parse(h, bytes.fromhex(pushed[0]))
        h.check_eq('one broadcast', len(pushed), 1)
        h.check_eq('transaction id', r, ref.dsha256(txs.legacy(t))[::-1].hex())
    else:
        h.check('refused', isinstance(e, ConnectionError))


def cases(tier):
    q = tier == 'quick'
    out = []
    for net in ('main', 'test'):
        out.append(Case('send_' + net, send, 'any UTXO and amount', net=net))
        for kind in (0, 1, 2, 3) if q else (None,):
            k = 'any' if kind is None else str(kind)
            out.append(Case('broadcast_%s_%s' % (net, k), broadcast, 'every combination of accepting, rejecting and failing services', net=net, kind=kind,
                            must=['accepted', 'failed']))
            for op in OPS:
                out.append(Case('%s_%s_%s' % (op, net, k), query, 'every subset of services failing with fault kind %s' % k, op=op, net=net, late=False, kind=kind,
                                must=['answered', 'failed', 'failover'], weight=5))
        for op in ('transactions', 'unspent'):
            out.append(Case('excessive_%s_%s' % (op, net), query, 'every subset of services failing, with an answer cut off where they do that', op=op, net=net,
                            late=False, kind=4, must=['answered', 'failed', 'failover'], weight=5))
            out.append(Case('late_%s_%s' % (op, net), query, 'services failing on their second request', op=op, net=net, late=True, kind=3 if q else None,
                            must=['answered', 'failover']))
        for op in OPS:
            out.append(hist.case('%s_%s' % (op, net), 'two queries in a row, any services failing in each', [(query, {'op': op, 'net': net, 'late': False, 'kind': k})
                                                                                                       for k in (0, 3)], weight=5))
        out.append(hist.case('broadcast_' + net, 'two broadcasts in a row, any services failing or refusing in each',
                             [(broadcast, {'net': net, 'kind': 1})] * 2, share=(), reverse=False, weight=5))
    for op in OPS:
        out.append(hist.case('nets_' + op, 'the same query on both networks', [(query, {'op': op, 'net': net, 'late': False, 'kind': 0})
                                                                             for net in ('main', 'test')], share=(), weight=5))
    return out
