"""C21: every web service client returns exactly what the service knows, completely, or an error."""
from symbit.common import Case
from props import chain, hist

ASSUMPTIONS = ["services answer as their documentation of the time says (page sizes, paging links, caps); props/chain.py emulates this",
               'answers of a service are consistent between the pages of one query']

SATS = 21 * 10 ** 14
WITH_TXS = ('blockchair', 'blockstream', 'smartbit', 'blockchain')
ADDRS = {'main': 4, 'test': 4}


def addrs(net):
    """an address of every kind, with its script"""
    from props import ref
    hsh, prog = bytes(range(7, 27)), bytes(range(100, 132))
    hrp, v = ('bc', (b'\x00', b'\x05')) if net == 'main' else ('tb', (b'\x6f', b'\xc4'))
    return [(ref.b58check(v[0] + hsh), ref.p2pkh(hsh).hex()), (ref.b58check(v[1] + hsh), ref.p2sh(hsh).hex()),
            (ref.bech32_text(hrp, [0] + ref.to5(hsh)), ref.wscript(0, hsh).hex()),
            (ref.bech32_text(hrp, [0] + ref.to5(prog)), ref.wscript(0, prog).hex())]


def fmt(kind):
    """how a service writes BTC amounts"""
    import decimal
    if kind == 'text':
        return lambda a: str(decimal.Decimal(a).scaleb(-8))
    return lambda a: a


def method(service, op, net):
    f = {'balance': 'get_balance', 'transactions': 'get_transactions', 'tx': 'get_transaction_by_id', 'unspent': 'get_unspent',
         'broadcast': 'broadcast_tx'}[op]
    return getattr(chain.api(service), f + ('' if net == 'main' else '_testnet'))


def make(h, net, service, n, syms, amounts='text', conf=True):
    """a world with n UTXOs and transactions, those at the indices syms arbitrary"""
    us = []
    tip = h.int('tip', 0 if len(syms) == n else n + 5, 10 ** 7)
    for i in range(n):
        if i in syms:
            vout, tx = chain.outpoint(h, i, n, 'vout%d' % i)
            us.append(chain.Utxo(i, h.int('amount%d' % i, 1, SATS), h.int('conf%d' % i, 0, 10 ** 7 + 1) if conf else 0, vout, tx))
            h.assume(us[-1].confirmations <= tip + 1)
        else:
            us.append(chain.Utxo(i, 1000 + i // 3, 5 + i // 5, i % 7, i if i // 2 * 2 in syms else i // 2 * 2))
    w = chain.World(net, balance=h.int('balance', 0, SATS), utxos=us, txids=[chain.txid(5000 + i) for i in range(n)], tip=tip)
    if service == 'smartbit':
        w.fmt = fmt(amounts)
    return w


def run(h, service, op, net, w, fault=None, arg=None, limit=60):
    log = chain.serve(h, {service: w}, fault, limit)
    t = h.int('timeout', 1, 1000)
    from bit.network import services
    h.patch(services, 'DEFAULT_TIMEOUT', services.DEFAULT_TIMEOUT)
    services.set_service_timeout(t)
    e, r = h.attempt(method(service, op, net), arg or (chain.TXID if op == 'tx' else w.address))
    for q in log:
        h.check_eq('requests are limited by the configured timeout', q.kw.get('timeout'), t)
    return e, r, log


def verify(h, op, w, r):
    if op == 'balance':
        h.check_eq('balance', r, w.balance)
    elif op == 'transactions':
        h.check_eq('transactions, each once', sorted(r), sorted(w.txids + w.mempool))
    elif op == 'tx':
        h.check_eq('raw transaction', r, w.raw)
    else:
        chain.check_unspents(h, r, w.utxos, w.script)


def complete(h, service, op, net, n, syms=(), page=0, mempool=0, amounts='text', address=0, limit=60):
    """the complete answer"""
    w = make(h, net, service, n, syms, amounts)
    w.page = page
    w.mempool = [chain.txid(9000 + i) for i in range(mempool)] if net == 'main' else []
    w.address, w.script = addrs(net)[address]
    w.raw = h.blob('raw', 10, 120).hex()
    if op == 'balance' and service == 'blockstream':
        cf, mf = h.int('chain funded', 0, SATS), h.int('mempool funded', 0, SATS)
        cs, ms = h.int('chain spent', 0, SATS), h.int('mempool spent', 0, SATS)
        w.stats = (cf, cs, mf, ms)
        w.balance = cf + mf - cs - ms
    e, r, log = run(h, service, op, net, w, limit=limit)
    if op == 'unspent' and service == 'blockchain' and n >= 1000 or mempool >= 50:
        # the service may know more than it can tell
        if e is None:
            h.check('only complete answers', n == 1000 or mempool == 50)
            verify(h, op, w, r)
        else:
            h.check('refused', errors(e))
        return
    h.check('no error', e is None)
    verify(h, op, w, r)


def floats(h, net, lo, hi):
    """Smartbit amounts as JSON numbers"""
    import decimal
    x = h.float('amount', lo, hi, -8)
    u = chain.Utxo(0, decimal.Decimal(str(x)).scaleb(8).to_integral_value(), 3, 1)
    w = chain.World(net, utxos=[chain.Utxo(0, x, 3, 1)])
    e, r, log = run(h, 'smartbit', 'unspent', net, w)
    h.check('no error', e is None)
    chain.check_unspents(h, r, [chain.Utxo(0, int(u.amount), 3, 1)], w.script)


def errors(e):
    import requests
    from bit.exceptions import ExcessiveAddress
    return isinstance(e, (ConnectionError, ExcessiveAddress, requests.exceptions.ConnectionError, requests.exceptions.Timeout))


# statuses by which a service tells that it does not know the address or transaction: (service, op, net) -> {status: first requests concerned}
UNKNOWN = {('blockchair', 'transactions', 'main'): {404: (0,)}, ('blockchair', 'transactions', 'test'): {404: (0,)},
           ('blockchair', 'unspent', 'main'): {404: (0,)}, ('blockchair', 'unspent', 'test'): {404: (0,)},
           ('blockchair', 'tx', 'main'): {404: (0,)}, ('blockchair', 'tx', 'test'): {404: (0,)},
           ('blockstream', 'transactions', 'main'): {400: (0, 1)}, ('blockstream', 'transactions', 'test'): {400: (0,)},
           ('blockstream', 'unspent', 'test'): {400: (1,)},
           ('blockstream', 'tx', 'main'): {404: (0,)}, ('blockstream', 'tx', 'test'): {404: (0,)},
           ('smartbit', 'tx', 'main'): {400: (0,)}, ('smartbit', 'tx', 'test'): {400: (0,)},
           ('blockchain', 'unspent', 'main'): {500: (0,)},
           ('blockchain', 'tx', 'main'): {500: (0,)}}


def failing(h, service, op, net, n, page=0, text='Internal error'):
    """any status but 200 on any one request: an error, never a partial answer"""
    from props import http
    w = make(h, net, service, n, (0,))
    w.page = page
    w.raw = 'ab' * 60
    w.mempool = [chain.txid(9000)] if net == 'main' and service == 'blockstream' else []
    at = h.fork('failing request', 4)
    status = h.int('status', 201, 599)
    hit = []

    def fault(s, k, req):
        if k == at:
            hit.append(k)
            return http.Response(status, data=None, text=text)

    e, r, log = run(h, service, op, net, w, fault)
    if not hit:
        h.check('no error', e is None)
        verify(h, op, w, r)
        return
    h.reach('failed')
    un = UNKNOWN.get((service, op, net), {})
    if e is not None:
        h.check('an error other services are tried after', errors(e))
        h.reach('error')
        return
    h.check('only "unknown" may be answered on an error status', h.any([status == s for s in un if at in un[s]]))
    h.check('nothing known', r is None if op == 'tx' else r == [])


def unknown(h, service, op, net):
    """an address or transaction the service does not know"""
    w = chain.World(net, known=False)
    e, r, log = run(h, service, op, net, w)
    if e is not None:
        h.check('an error other services are tried after', errors(e))
    else:
        h.check('nothing known', r is None if op == 'tx' else r == [] if op != 'balance' else r == 0)


def unreachable(h, service, op, net, n):
    """a connection problem at any request: an error other services are tried after"""
    import requests
    w = make(h, net, service, n, (0,))
    w.raw = 'ab' * 60
    w.page = 1 if service == 'smartbit' else 0
    at = h.fork('failing request', 4)
    kind = h.fork('kind', 3)
    hit = []

    def fault(s, k, req):
        if k == at:
            hit.append(k)
            raise [requests.exceptions.ConnectionError, requests.exceptions.ReadTimeout, requests.exceptions.Timeout][kind]('fault')

    e, r, log = run(h, service, op, net, w, fault)
    if hit:
        h.check('an error other services are tried after', e is not None and errors(e))
    else:
        h.check('no error', e is None)
        verify(h, op, w, r)


def broadcast(h, service, net):
    """True exactly if the service accepted the transaction; the transaction is passed on unchanged"""
    from props import http
    w = chain.World(net)
    status = h.int('status', 200, 599)
    tx = h.blob('tx', 60, 300).hex()

    def fault(s, k, req):
        a = getattr(w, s)(req)
        h.check('a request the service offers', a is not None)
        return http.Response(status, data={}, text='x')

    e, r, log = run(h, service, 'broadcast', net, w, fault, arg=tx)
    h.check('no error', e is None)
    h.check_eq('one request', len(log), 1)
    h.check_eq('transaction', w.pushed, [tx])
    h.check_eq('accepted', r, status == 200)


def excessive(h, net):
    """Blockstream refuses to list very long histories"""
    from props import http
    w = chain.World(net, utxos=[chain.Utxo(0, 5, 5, 5)])

    def fault(s, k, req):
        if req.url.endswith('/utxo'):
            return http.Response(400, text='Too many history entries')

    e, r, log = run(h, 'blockstream', 'unspent', 'main', w, fault)
    h.check('refused', e is not None and errors(e))


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, bounds, **kw):
        out.append(Case(name, fn, bounds, **kw))

    for net in ('main', 'test'):
        for s in chain.SERVICES[net]:
            k = '%s_%s' % (s, net)
            add('balance_' + k, complete, 'every balance', service=s, op='balance', net=net, n=1, syms=(0,))
            add('balance_err_' + k, failing, 'every status', service=s, op='balance', net=net, n=1)
            add('balance_down_' + k, unreachable, 'every connection problem', service=s, op='balance', net=net, n=1)
            add('broadcast_' + k, broadcast, 'every status and transaction of 60..300 bytes', service=s, net=net)
            for n in range(0, 4 if q else 5):
                add('unspent_%s_%d' % (k, n), complete, 'every set of %d UTXOs' % n, service=s, op='unspent', net=net, n=n, syms=tuple(range(n)),
                    page=2 if s == 'smartbit' else 0)
            for n in {'blockchair': (999, 1000, 1001, 2001), 'bitcore': (99, 100, 101, 201), 'blockchain': (999, 1000, 1001), 'blockstream': (30,),
                      'smartbit': (1000, 1001)}[s]:
                add('unspent_%s_%d' % (k, n), complete, '%d UTXOs, three of them arbitrary' % n, service=s, op='unspent', net=net, n=n,
                    syms=() if s == 'blockstream' else (0, n // 2, n - 1), weight=5)
            add('unspent_err_' + k, failing, 'every status, on any request', service=s, op='unspent', net=net, page=1,
                n={'blockchair': 1001, 'bitcore': 101}.get(s, 2), must=['failed', 'error'])
            add('unspent_down_' + k, unreachable, 'every connection problem, on any request', service=s, op='unspent', net=net, n={'blockchair': 1001, 'bitcore': 101}.get(s, 2))
            if s in WITH_TXS:
                for n in {'blockchair': (0, 1, 2, 999, 1000, 1001, 2000), 'blockstream': (0, 1, 2, 24, 25, 26, 50, 51), 'smartbit': (0, 1, 2, 3, 1000, 1001),
                          'blockchain': (0, 1, 2, 49, 50, 51, 100, 101)}[s]:
                    add('transactions_%s_%d' % (k, n), complete, '%d transactions' % n, service=s, op='transactions', net=net, n=n,
                        page=2 if s == 'smartbit' and n < 10 else 0)
                add('transactions_err_' + k, failing, 'every status, on any request', service=s, op='transactions', net=net, page=1,
                    n={'blockchair': 1001, 'blockchain': 101}.get(s, 30), must=['failed', 'error'])
                add('transactions_down_' + k, unreachable, 'every connection problem, on any request', service=s, op='transactions', net=net,
                    n={'blockchair': 1001, 'blockchain': 101, 'smartbit': 4}.get(s, 30))
                add('tx_' + k, complete, 'every raw transaction of 10..120 bytes', service=s, op='tx', net=net, n=1)
                add('tx_err_' + k, failing, 'every status', service=s, op='tx', net=net, n=1)
                add('tx_down_' + k, unreachable, 'every connection problem', service=s, op='tx', net=net, n=1)
                add('tx_unknown_' + k, unknown, 'unknown transaction', service=s, op='tx', net=net)
            big = 10050
            if s in WITH_TXS:
                add('transactions_many_' + k, complete, '%d transactions' % big, service=s, op='transactions', net=net, n=big, limit=500, weight=9)
            if s != 'blockchain':
                add('unspent_many_' + k, complete, '%d UTXOs, two of them arbitrary' % big, service=s, op='unspent', net=net, n=big, limit=500,
                    syms=() if s == 'blockstream' else (0, big - 1), weight=9)
            for op in ('balance', 'unspent'):
                add('%s_unknown_%s' % (op, k), unknown, 'unknown address', service=s, op=op, net=net)
        for i in range(ADDRS[net]):
            add('script_%s_%d' % (net, i), complete, 'address type %d' % i, service='blockstream', op='unspent', net=net, n=1, syms=(0,), address=i)
        for lo, hi in ((1, 10 ** 4), (10 ** 4, 10 ** 8), (10 ** 8, SATS)):
            add('smartbit_float_%s_%d' % (net, lo), floats, 'every amount %d..%d satoshi as a JSON number' % (lo, hi), net=net, lo=lo, hi=hi)
    for m in (1, 49, 50, 51, 70):
        for n in (0, 26):
            add('mempool_%d_%d' % (m, n), complete, '%d unconfirmed transactions' % m, service='blockstream', op='transactions', net='main', n=n, mempool=m)
    add('excessive', excessive, 'a history too long to list', net='main')
    for net in ('main', 'test'):
        for s in chain.SERVICES[net]:
            for op in ('balance', 'unspent') + (('transactions', 'tx') if s in WITH_TXS else ()):
                one, two = ({'service': s, 'op': op, 'net': net, 'n': n, 'syms': () if op in ('transactions', 'tx') else tuple(range(n)),
                             'page': 1 if s == 'smartbit' else 0} for n in (1, 2))
                out.append(hist.case('%s_%s_%s' % (op, s, net), 'two queries in a row, the answers differ', [(complete, one), (complete, two)], share=()))
                out.append(hist.case('err_%s_%s_%s' % (op, s, net), 'a query after one that failed', [
                    (failing, {'service': s, 'op': op, 'net': net, 'n': 1}), (complete, two)], share=(), reverse=False))
    return out
