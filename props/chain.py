"""Emulation of the web services' answers about one address, for C20, C21 and C23."""
import re

ADDR = {'main': '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2', 'test': 'mipcBbFg9gMiCh81Kj8tqqdgoZub1ZJRfn'}
SCRIPT = {'main': '76a91477bff20c60e522dfaa3350c39b030a5d004e839a88ac', 'test': '76a914243f1394f44554f4ce3fd68649c19adc483ce92488ac'}
TXID = 'd5ada064c6417ca25c4308bd158c34b77e1c0eca2a73cda16c737e7424afba2f'

SERVICES = {'main': ['blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'],
            'test': ['blockchair', 'blockstream', 'bitcore', 'smartbit']}


def txid(i):
    return '%064x' % (0xabc000 + i)


class Utxo:
    def __init__(self, i, amount, confirmations, vout, tx=None):
        self.txid, self.vout, self.amount, self.confirmations, self.i = txid(i if tx is None else tx), vout, amount, confirmations, i


def outpoint(h, i, n, name):
    """(output index, number of the transaction) of the i-th of n coins: the first two, if there are two, are of one transaction"""
    if n > 1 and i < 2:
        return [7, 2][i], 0
    return h.int(name, 0, 2 ** 32 - 1), i


def place(txid, vout):
    """sort key; several coins of one transaction have concrete indices"""
    return txid, vout if type(vout) is int else -1


class World:
    """what one service knows; answers requests for it"""

    def __init__(self, net, balance=0, utxos=(), txids=(), raw=None, tip=800000, mempool=(), address=None, script=None, known=True,
                 stats=None, fmt=None):
        self.net, self.balance, self.utxos, self.txids, self.raw, self.tip = net, balance, list(utxos), list(txids), raw, tip
        self.mempool = list(mempool)
        self.address = address or ADDR[net]
        self.script = script or SCRIPT[net]
        self.known = known
        self.stats = stats
        self.fmt = fmt or (lambda satoshi: satoshi)     # BTC amounts in JSON
        self.accept = True
        self.pushed = []
        self.page = 0

    def height(self, u):
        return self.tip - u.confirmations + 1

    # every method returns (status, json, text) or None for an unknown URL
    def blockchair(self, r):
        base = 'https://api.blockchair.com/bitcoin/' + ('' if self.net == 'main' else 'testnet/')
        if r.method == 'POST':
            return self.push(r, base + 'push/transaction', 'data')
        if r.url == base + 'dashboards/address/' + self.address:
            if not self.known:
                return 404, {'data': None}, None
            off = int(r.query.get('offset', '0'))
            lim = int(r.query.get('limit', '100'))
            return 200, {'context': {'state': self.tip}, 'data': {self.address: {
                'address': {'balance': self.balance, 'script_hex': self.script, 'unspent_output_count': len(self.utxos),
                            'transaction_count': len(self.txids)},
                'transactions': self.txids[off:off + lim],
                'utxo': [{'value': u.amount, 'block_id': self.height(u) if u.confirmations > 0 else -1, 'transaction_hash': u.txid,
                          'index': u.vout} for u in self.utxos[off:off + lim]]}}}, None
        if r.url.startswith(base + 'raw/transaction/'):
            t = r.url[len(base + 'raw/transaction/'):]
            if not self.known:
                return 404, {'data': None}, None
            return 200, {'data': {t: {'raw_transaction': self.raw}}} if t == TXID else {'data': None}, None

    def blockstream(self, r):
        base = 'https://blockstream.info/' + ('' if self.net == 'main' else 'testnet/') + 'api/'
        if r.method == 'POST':
            return self.push(r, base + 'tx', 'data')
        a = base + 'address/' + self.address
        if r.url == a:
            cf, cs, mf, ms = self.stats or (self.balance, 0, 0, 0)
            return 200, {'address': self.address, 'chain_stats': {'funded_txo_sum': cf, 'spent_txo_sum': cs},
                         'mempool_stats': {'funded_txo_sum': mf, 'spent_txo_sum': ms}}, None
        if r.url == a + '/utxo':
            return 200, [{'txid': u.txid, 'vout': u.vout, 'value': u.amount,
                          'status': {'confirmed': True, 'block_height': self.height(u)} if u.confirmations > 0 else {'confirmed': False}}
                         for u in self.utxos], None
        if r.url == a + '/txs/mempool':
            return 200, [{'txid': t} for t in self.mempool[:50]], None
        if r.url.startswith(a + '/txs/chain'):
            last = r.url[len(a + '/txs/chain'):].strip('/')
            off = self.txids.index(last) + 1 if last else 0
            return 200, [{'txid': t} for t in self.txids[off:off + 25]], None
        if r.url == base + 'blocks/tip/height':
            return 200, None, str(self.tip)
        if r.url == base + 'tx/' + TXID + '/hex':
            return (200, None, self.raw) if self.known else (404, None, 'Transaction not found')

    def bitcore(self, r):
        base = 'https://api.bitcore.io/api/BTC/' + ('mainnet/' if self.net == 'main' else 'testnet/')
        if r.method == 'POST':
            return self.push(r, base + 'tx/send', 'rawTx')
        a = base + 'address/' + self.address
        if r.url == a + '/balance':
            return 200, {'confirmed': 0, 'unconfirmed': 0, 'balance': self.balance}, None
        if r.url.rstrip('/') == a and r.query.get('unspent') == 'true':
            since = r.query.get('since')
            off = int(since[2:]) + 1 if since else 0
            lim = int(r.query.get('limit', '10'))
            return 200, [{'_id': 'id%d' % (off + k), 'value': u.amount, 'confirmations': u.confirmations, 'script': self.script,
                          'mintTxid': u.txid, 'mintIndex': u.vout} for k, u in enumerate(self.utxos[off:off + lim])], None

    def smartbit(self, r):
        base = 'https://%sapi.smartbit.com.au/v1/blockchain/' % ('' if self.net == 'main' else 'testnet-')
        if r.method == 'POST':
            return self.push(r, base + 'pushtx', 'hex')
        a = base + 'address/' + self.address
        page = self.page or 1000
        if r.url == a:
            off = int(r.query.get('next', '0'))
            d = {'total': {'balance_int': self.balance}}
            lim = min(int(r.query.get('limit', '10')), page)
            if self.txids:
                more = off + lim < len(self.txids)
                d['transactions'] = [{'txid': t} for t in self.txids[off:off + lim]]
                d['transaction_paging'] = {'next_link': '%s?limit=%d&next=%d' % (a, lim, off + lim) if more else None}
            return 200, {'success': True, 'address': d}, None
        if r.url == a + '/unspent':
            off = int(r.query.get('next', '0'))
            lim = min(int(r.query.get('limit', '10')), page)
            d = {'success': True}
            if self.utxos:
                more = off + lim < len(self.utxos)
                d['unspent'] = [{'value': self.fmt(u.amount), 'confirmations': u.confirmations, 'script_pub_key': {'hex': self.script},
                                 'txid': u.txid, 'n': u.vout} for u in self.utxos[off:off + lim]]
                d['paging'] = {'next_link': '%s/unspent?limit=%d&next=%d' % (a, lim, off + lim) if more else None}
            return 200, d, None
        if r.url == base + 'tx/' + TXID + '/hex':
            return (200, {'success': True, 'hex': [{'hex': self.raw}]}, None) if self.known else (400, {'success': False}, None)

    def blockchain(self, r):
        base = 'https://blockchain.info/'
        if self.net != 'main':
            return None
        if r.method == 'POST':
            return self.push(r, base + 'pushtx', 'tx')
        if r.url == base + 'address/' + self.address and r.query.get('format') == 'json':
            off = int(r.query.get('offset', '0'))
            return 200, {'final_balance': self.balance, 'n_tx': len(self.txids), 'txs': [{'hash': t} for t in self.txids[off:off + 50]]}, None
        if r.url == base + 'unspent' and r.query.get('active') == self.address:
            off = int(r.query.get('offset', '0'))
            lim = min(int(r.query.get('limit', '250')), 1000)
            if not self.utxos:
                return 500, None, 'No free outputs to spend'
            return 200, {'unspent_outputs': [{'value': u.amount, 'confirmations': u.confirmations, 'script': self.script,
                                              'tx_hash_big_endian': u.txid, 'tx_hash': 'ff' * 32, 'tx_output_n': u.vout, 'tx_index': 5}
                                             for u in self.utxos[off:off + lim]]}, None
        if r.url == base + 'rawtx/' + TXID and r.query.get('format') == 'hex':
            return (200, None, self.raw) if self.known else (500, None, 'Transaction not found')

    def push(self, r, url, field):
        if r.url != url:
            return None
        body = r.js if r.js is not None else r.form
        tx = body[field] if isinstance(body, dict) else body
        self.pushed.append(tx)
        return (200 if self.accept else 400), {}, 'ok'


def service_of(url):
    for s, host in (('blockchair', 'blockchair.com'), ('blockstream', 'blockstream.info'), ('bitcore', 'bitcore.io'),
                    ('smartbit', 'smartbit.com.au'), ('blockchain', 'blockchain.info')):
        if host in url:
            return s
    raise AssertionError('unknown service ' + url)


def serve(h, worlds, fault=None, limit=60):
    """worlds: {service: World}; fault(service, index of this request to the service, request) -> Response, None, or raises"""
    from props import http
    counts = {}

    def handler(req):
        s = service_of(req.url)
        k = counts.get(s, 0)
        counts[s] = k + 1
        if fault is not None:
            f = fault(s, k, req)
            if f is not None:
                return f
        a = getattr(worlds[s], s)(req)
        if a is None:
            raise AssertionError('request this service does not offer: %s %s' % (req.method, req.url))
        return http.Response(a[0], data=a[1], text=a[2])
    return http.install(h, handler, limit)


def api(service):
    from bit.network import services as S
    return {'blockchair': S.BlockchairAPI, 'blockstream': S.BlockstreamAPI, 'bitcore': S.BitcoreAPI, 'smartbit': S.SmartbitAPI,
            'blockchain': S.BlockchainAPI}[service]


def norm(us):
    """unspents by outpoint, independent of their order"""
    return sorted([(u.txid, u) for u in us], key=lambda x: place(x[0], x[1].txindex))


def check_unspents(h, got, want, script):
    h.check_eq('number of unspents', len(got), len(want))
    if len(got) != len(want):
        return
    g = norm(got)
    w = sorted([(u.txid, u) for u in want], key=lambda x: place(x[0], x[1].vout))
    h.check_eq('transaction ids', [x[0] for x in g], [x[0] for x in w])
    for (t, a), (t2, b) in zip(g, w):
        h.check_eq('amount', a.amount, b.amount)
        h.check_eq('output index', a.txindex, b.vout)
        h.check_eq('confirmations', a.confirmations, b.confirmations)
        h.check_eq('script', a.script, script)
        h.check('amount is an integer', isinstance(a.amount, int))
