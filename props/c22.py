"""C22: a connected Bitcoin node replaces the web services of its network, with exact amounts and visible errors."""
from symbit.common import Case
from props import chain, hist

ASSUMPTIONS = ['the node answers JSON-RPC; amounts are JSON numbers with 8 decimals, standing for the decimal their repr shows',
               'getreceivedbyaddress, listunspent, listreceivedbyaddress, getrawtransaction, sendrawtransaction as Bitcoin Core documents them']
SATS = 21 * 10 ** 14
LISTS = [a + b for a in ('GET_BALANCE_', 'GET_TRANSACTIONS_', 'GET_TRANSACTION_BY_ID_', 'GET_UNSPENT_', 'BROADCAST_TX_') for b in ('MAIN', 'TEST')]


def connect(h, net, handler, https=False):
    """connect, with every answer given by handler(rpc method, params)"""
    import json
    from bit.network import NetworkAPI
    from props import http
    for a in LISTS:
        h.patch(NetworkAPI, a, getattr(NetworkAPI, a))

    def serve(req):
        h.check('only the node is asked', req.url == 'http%s://user:secret@node.example:1234/wallet' % ('s' if https else ''))
        h.check_eq('method', req.method, 'POST')
        body = json.loads(req.form)
        return handler(body['method'], body['params'])
    log = http.install(h, serve)
    node = NetworkAPI.connect_to_node('user', 'secret', host='node.example', port=1234, use_https=https, testnet=net == 'test', path='wallet')
    return node, log


def call(h, name, net, arg):
    from bit.network import NetworkAPI
    return h.attempt(getattr(NetworkAPI, name + ('' if net == 'main' else '_testnet')), arg)


def ok(result):
    from props import http
    return http.Response(200, data={'result': result, 'error': None, 'id': None})


def satoshi(x):
    """the exact value of a BTC amount with 8 decimals"""
    import decimal
    return int(decimal.Decimal(str(x)).scaleb(8).to_integral_value())


def balance(h, net, lo, hi, https):
    import decimal
    x = h.float('received', lo, hi, -8)
    prec = decimal.getcontext().prec

    def node(m, p):
        h.check_eq('question', (m, p[0]), ('getreceivedbyaddress', chain.ADDR[net]))
        h.check('unconfirmed included', len(p) > 1 and p[1] == 0)
        return ok(x)
    connect(h, net, node, https)
    e, r = call(h, 'get_balance', net, chain.ADDR[net])
    h.check('no error', e is None)
    h.check_eq('exact balance', r, satoshi(x))
    h.check('an integer', isinstance(r, int))
    h.check_eq('decimal precision untouched', decimal.getcontext().prec, prec)


def unspents(h, net, n, lo, hi):
    us = []
    for i in range(n):
        x = h.float('amount%d' % i, lo, hi, -8)
        vout, tx = chain.outpoint(h, i, n, 'vout%d' % i)
        us.append((x, chain.Utxo(i, satoshi(x), h.int('conf%d' % i, 0, 10 ** 6), vout, tx)))

    def node(m, p):
        h.check_eq('question', (m, p[2]), ('listunspent', [chain.ADDR[net]]))
        h.check('unconfirmed and arbitrarily old outputs included', p[0] == 0 and p[1] >= 9999999)
        return ok([{'txid': u.txid, 'vout': u.vout, 'address': chain.ADDR[net], 'scriptPubKey': chain.SCRIPT[net], 'amount': x,
                    'confirmations': u.confirmations, 'spendable': True} for x, u in us])
    connect(h, net, node)
    e, r = call(h, 'get_unspent', net, chain.ADDR[net])
    h.check('no error', e is None)
    chain.check_unspents(h, r, [u for _, u in us], chain.SCRIPT[net])


def transactions(h, net, n):
    ids = [h.bytes('tx%d' % i, 32).hex() for i in range(n)]

    def node(m, p):
        h.check_eq('question', (m, p[0], p[3]), ('listreceivedbyaddress', 0, chain.ADDR[net]))
        return ok([] if n == 0 else [{'address': chain.ADDR[net], 'amount': 0, 'txids': ids}])
    connect(h, net, node)
    e, r = call(h, 'get_transactions', net, chain.ADDR[net])
    h.check('no error', e is None)
    h.check_eq('transactions', r, ids)


def raw(h, net):
    tx = h.blob('tx', 10, 400).hex()
    txid = h.bytes('id', 32).hex()

    def node(m, p):
        h.check_eq('question', (m, p[0]), ('getrawtransaction', txid))
        h.check('as hex', len(p) < 2 or not p[1])
        return ok(tx)
    connect(h, net, node)
    e, r = call(h, 'get_transaction_by_id', net, txid)
    h.check('no error', e is None)
    h.check_eq('transaction', r, tx)


OPS = ['get_balance', 'get_unspent', 'get_transactions', 'get_transaction_by_id', 'broadcast_tx']


def faulty(h, net, op):
    """any failure of the node is an error for the caller, never an answer"""
    import requests
    from bit.exceptions import BitcoinNodeException
    from props import http
    kind = h.fork('kind', 5)
    status = h.int('status', 100, 599)

    def node(m, p):
        if kind == 0:
            raise requests.exceptions.ConnectionError('down')
        if kind == 1:
            raise requests.exceptions.ConnectTimeout('down')
        if kind == 2:
            h.assume(status != 200)
            h.assume(status != 500)
            return http.Response(status, data={'result': [], 'error': None})
        st = 500 if kind == 3 else 200
        err = h.fork('error', [{'code': h.int('code', -100, 100), 'message': 'm'}, {}, '', 0, False, 'm', []])
        return http.Response(st, data={'result': h.fork('result', [None, [], 'ab' * 32]), 'error': err, 'id': None})
    connect(h, net, node)
    e, r = call(h, op, net, 'ab' * 32)
    h.check('an error', e is not None)
    if e is None:
        return
    if kind < 2 or op == 'broadcast_tx':
        h.check('connection error', isinstance(e, ConnectionError))
    else:
        h.check('node error', isinstance(e, BitcoinNodeException))


def broadcast(h, net):
    from props import http
    tx = h.blob('tx', 60, 400).hex()
    acc = h.fork('accepts', 2)
    seen = []

    def node(m, p):
        h.check_eq('question', m, 'sendrawtransaction')
        seen.append(p[0])
        if acc:
            return ok('ab' * 32)
        return http.Response(500, data={'result': None, 'error': {'code': -26, 'message': 'dust'}, 'id': None})
    connect(h, net, node)
    e, r = call(h, 'broadcast_tx', net, tx)
    h.check_eq('passed on once, unchanged', seen, [tx])
    if acc:
        h.check('accepted', e is None)
    else:
        h.check('refused', isinstance(e, ConnectionError))


def separate(h, net):
    """only the queries of the node's own network are redirected"""
    from bit.network import NetworkAPI
    other = 'TEST' if net == 'main' else 'MAIN'
    before = {a: list(getattr(NetworkAPI, a)) for a in LISTS}
    first = h.fork('both', 2)
    node, log = connect(h, net, lambda m, p: ok([]))
    for a in LISTS:
        if a.endswith(other):
            h.check('other network untouched', getattr(NetworkAPI, a) == before[a])
        else:
            h.check('only the node', len(getattr(NetworkAPI, a)) == 1)
    for op in OPS[1:]:
        e, r = call(h, op, net, 'ab' * 32)
        h.check('answered by the node', e is None)
    h.check_eq('requests', len(log), len(OPS) - 1)


def newest(h, net, op):
    """after a second node of the same network is connected, the first is never asked again, whatever the second answers"""
    import requests
    from bit.network import NetworkAPI
    from props import http
    for a in LISTS:
        h.patch(NetworkAPI, a, getattr(NetworkAPI, a))
    kind = h.fork('kind', 4)
    between = h.fork('between', 2)
    code = h.int('code', -100, 100)
    asked = []

    def serve(req):
        asked.append(req.url)
        if 'second.example' in req.url and kind < 3:
            if kind == 0:
                raise requests.exceptions.ConnectionError('down')
            return http.Response(500 if kind == 1 else 200, data={'result': None, 'error': {'code': code, 'message': 'm'}, 'id': None})
        return ok([])
    http.install(h, serve)
    NetworkAPI.connect_to_node('user', 'secret', host='first.example', port=1234, testnet=net == 'test')
    if between:
        call(h, op, net, 'ab' * 32)
        h.check_eq('the first node', [u for u in asked if 'first.example:1234' not in u], [])
    asked[:] = []
    NetworkAPI.connect_to_node('other', 'secret', host='second.example', port=1234, testnet=net == 'test')
    e, r = call(h, op, net, 'ab' * 32)
    h.check('asked', len(asked) > 0)
    h.check_eq('only the newest node is asked', [u for u in asked if 'second.example:1234' not in u], [])
    if kind < 3:
        h.check('an error', e is not None)


def direct(h, depth):
    """any other RPC can be called by its name; arguments and result pass through unchanged"""
    import json
    a, b = h.int('a', -2 ** 40, 2 ** 40), h.blob('b', 0, 60).hex()
    res = h.int('res', 0, SATS)

    def answer(m, p):
        h.check_eq('call', (m, p), ('.'.join(['frob', 'nicate', 'more'][:depth]), [a, b]))
        return ok(res)
    node, log = connect(h, 'main', answer)
    f = node.frob
    for k in ['nicate', 'more'][:depth - 1]:
        f = getattr(f, k)
    h.check_eq('result', f(a, b), res)


def cases(tier):
    q = tier == 'quick'
    out = []
    R = ((0, 10 ** 4), (10 ** 4, 10 ** 8), (10 ** 8, SATS))
    for net in ('main', 'test'):
        for i, (lo, hi) in enumerate(R):
            out.append(Case('balance_%s_%d' % (net, i), balance, 'every amount %d..%d satoshi' % (lo, hi), net=net, lo=lo, hi=hi, https=i == 1))
            for n in (1, 2) if q else (1, 2, 3, 4):
                out.append(Case('unspents_%s_%d_%d' % (net, i, n), unspents, '%d UTXOs of %d..%d satoshi' % (n, lo, hi), net=net, n=n, lo=max(lo, 1), hi=hi))
        out.append(Case('unspents_%s_none' % net, unspents, 'no UTXO', net=net, n=0, lo=1, hi=2))
        for n in (0, 1, 3):
            out.append(Case('transactions_%s_%d' % (net, n), transactions, '%d transactions' % n, net=net, n=n))
        out.append(Case('raw_' + net, raw, 'every transaction of 10..400 bytes', net=net))
        out.append(Case('broadcast_' + net, broadcast, 'every transaction of 60..400 bytes', net=net))
        out.append(Case('separate_' + net, separate, 'both networks', net=net))
        for op in OPS:
            out.append(Case('faulty_%s_%s' % (op, net), faulty, 'connection problems, every status, every error code', net=net, op=op))
        for op in OPS:
            out.append(Case('newest_%s_%s' % (op, net), newest, 'two nodes in a row; the second answers, fails or refuses with every error code', net=net,
                            op=op))
    for d in (1, 2, 3):
        out.append(Case('direct_%d' % d, direct, 'every integer and hex argument', depth=d))
    for a, b in (('main', 'test'), ('main', 'main')):
        out.append(hist.case('unspents_%s_%s' % (a, b), 'two nodes connected one after the other', [
            (unspents, {'net': a, 'n': 1, 'lo': 1, 'hi': 10 ** 9}), (unspents, {'net': b, 'n': 2, 'lo': 1, 'hi': 10 ** 9})], share=()))
        out.append(hist.case('broadcast_%s_%s' % (a, b), 'two nodes connected one after the other', [(broadcast, {'net': a}), (broadcast, {'net': b})],
                             share=(), reverse=False))
    return out
