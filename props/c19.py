"""C19: cached rates and fees are never staler than the cache time, per currency and per speed, and outages are survived."""
from symbit.common import Case

ASSUMPTIONS = ['the clock does not run backwards; times in whole seconds', 'rates and fees are at least 1',
               'the number of calls is bounded per case, times, rates, fees, cache time and outages are arbitrary']


def clock(h):
    import logging
    import time
    state = {'now': h.int('t0', 0, 10 ** 10)}
    h.patch(time, 'time', lambda: state['now'])
    h.patch(time, 'monotonic', lambda: state['now'])
    h.patch(logging.Logger, 'isEnabledFor', lambda self, level: False)
    return state


def tick(h, state, i):
    state['now'] = state['now'] + h.int('dt%d' % i, 0, 10 ** 6)


def same_rate(h, label, r, rate, amount, back):
    if not back:
        h.check_eq(label, r, rate * amount)
        return
    import decimal
    s = int(decimal.Decimal(r) * 100)
    h.check(label, h.all([s * rate <= amount * 100, (s + 1) * rate > amount * 100]))


FIXED = {'satoshi': 1, 'ubtc': 100, 'mbtc': 10 ** 5, 'btc': 10 ** 8}


def rates(h, n, curs, faults, change, texts=False):
    state = clock(h)
    from bit.network import rates as R
    from bit import set_rate_cache_time
    from props import http
    served = []
    mode = {}

    def handler(req):
        served.append(1)
        if faults and mode['fail']:
            return http.outage(h, 'kind%d.%d' % (mode['i'], len(served))) if 'bitpay' in req.url else http.Response(500)
        if 'bitpay' in req.url:
            return http.Response(503)
        return http.Response(200, text=str(mode['rate']))
    http.install(h, handler)
    ttl = 60
    if change:
        ttl = h.int('ttl', 0, 10 ** 6)
        set_rate_cache_time(ttl)
    model = {}
    import decimal
    for i in range(n):
        tick(h, state, i)
        if change and i == n - 1:
            ttl = h.int('ttl2', 0, 10 ** 6)
            set_rate_cache_time(ttl)
        cur = curs[0] if len(curs) == 1 else h.fork('cur%d' % i, curs)
        rate = FIXED.get(cur) or h.int('rate%d' % i, 1, 10 ** 6)
        mode.update(i=i, rate=decimal.Decimal(rate).scaleb(-8), fail=h.fork('fail%d' % i, 2) if faults else False)
        del served[:]
        amount = h.int('amount%d' % i, 0, 10 ** 6)
        back = bool(texts) and h.fork('back%d' % i, 2) == 1
        if back:
            e, r = h.attempt(R.satoshi_to_currency_cached, amount, cur)
        else:
            e, r = h.attempt(R.currency_to_satoshi_cached, amount, cur)
        known = model.get(cur)
        if cur in FIXED:
            h.check('needs no request', len(served) == 0)
            h.check('needs no answer', e is None)
            h.check_eq('fixed', r, rate * amount)
        elif known is not None and state['now'] - known[1] <= ttl:
            h.check('cached: no request', len(served) == 0)
            h.check('cached: no error', e is None)
            same_rate(h, 'cached: last rate', r, known[0], amount, back)
            h.reach('cached')
        elif faults and mode['fail']:
            h.check('outage is a ConnectionError', isinstance(e, ConnectionError))
            h.reach('outage')
        else:
            h.check('fetched', len(served) > 0)
            h.check('no error', e is None)
            same_rate(h, 'current rate', r, rate, amount, back)
            model[cur] = (rate, state['now'])
            h.reach('fetched')


def fees(h, n, faults, change):
    state = clock(h)
    from bit.network import fees as F
    from bit.network import get_fee_cached
    from bit import set_fee_cache_time
    from props import http
    served = []
    mode = {}

    def handler(req):
        served.append(1)
        if mode['fail']:
            return http.outage(h, 'kind%d' % mode['i'])
        return http.Response(200, data={'fastestFee': mode['fast'], 'halfHourFee': 1, 'hourFee': mode['hour'], 'economyFee': 1, 'minimumFee': 1})
    http.install(h, handler)
    ttl = 600
    if change:
        ttl = h.int('ttl', 0, 10 ** 6)
        set_fee_cache_time(ttl)
    model = {}
    for i in range(n):
        tick(h, state, i)
        fast = h.fork('fast%d' % i, [True, False])
        mode.update(i=i, fail=h.fork('fail%d' % i, 2) if faults else False, fast=h.int('f%d' % i, 1, 10 ** 6), hour=h.int('h%d' % i, 1, 10 ** 6))
        del served[:]
        e, r = h.attempt(get_fee_cached, fast=fast)
        h.check('never an error', e is None)
        known = model.get(fast)
        if known is not None and state['now'] - known[1] <= ttl:
            h.check('cached: no request', len(served) == 0)
            h.check_eq('cached: last fee', r, known[0])
            h.reach('cached')
        elif mode['fail']:
            h.check('tried', len(served) > 0)
            if known is not None:
                h.check_eq('outage: last known fee', r, known[0])
                h.reach('stale')
            else:
                h.check_eq('outage: default fee', r, F.DEFAULT_FEE_FAST if fast else F.DEFAULT_FEE_HOUR)
                h.reach('default')
        else:
            h.check('fetched', len(served) > 0)
            v = mode['fast'] if fast else mode['hour']
            h.check_eq('current fee', r, v)
            model[fast] = (v, state['now'])
            h.reach('fetched')


def spend_fee(h):
    """a transaction without an explicit fee pays the recommended fast rate"""
    state = clock(h)
    from props import http, txs
    from props.c15 import wallet, utxo
    f = h.int('fast', 1, 1000)
    http.install(h, lambda req: http.Response(200, data={'fastestFee': f, 'hourFee': h.int('hour', 1, 1000)}))
    w = wallet('single', 'main')
    u = utxo(h, w)
    v = h.int('v', 1, 10 ** 8)
    h.assume(u.amount > 10 ** 9)
    tx = w.create_transaction([(txs.DEST['main'][0], v, 'satoshi')], unspents=[u])
    t = txs.parse(h, bytes.fromhex(tx))
    got = [int.from_bytes(a, 'little') for a, s in t['outs']]
    h.check_eq('fee', u.amount - sum(got), f * (148 + 34 + 34 + 10))


def direct(h):
    """the uncached lookup always asks"""
    from bit.network import get_fee
    from props import http
    vals = []
    cur = {}

    def handler(req):
        vals.append(1)
        return http.Response(200, data={'fastestFee': cur['f'], 'hourFee': cur['h']})
    http.install(h, handler)
    for i in range(3):
        cur.update(f=h.int('f%d' % i, 1, 1000), h=h.int('h%d' % i, 1, 1000))
        fast = h.fork('fast%d' % i, [True, False])
        h.check_eq('current', get_fee(fast=fast), cur['f'] if fast else cur['h'])
    h.check_eq('asked every time', len(vals), 3)


def cases(tier):
    q = tier == 'quick'
    out = [Case('spend', spend_fee, 'any recommended fee'), Case('direct', direct, '3 calls')]
    for change in (False, True):
        out.append(Case('texts_%d' % change, rates, '2 calls, in both directions', n=2, curs=['usd'], faults=False, change=change, texts=True, must=['fetched', 'cached']))
    for unit in FIXED:
        out.append(Case('unit_' + unit, rates, '4 calls, a currency and %s' % unit, n=4, curs=['usd', unit], faults=unit == 'btc', change=False, must=['fetched', 'cached']))
    for n in ((3, 4) if q else (4, 5)):
        for change in (False, True):
            c = 'ttl' if change else 'def'
            out.append(Case('rates1_%d_%s' % (n, c), rates, '%d calls, one currency' % n, n=n, curs=['usd'], faults=False, change=change, must=['fetched', 'cached']))
            out.append(Case('rates2_%d_%s' % (n, c), rates, '%d calls, two currencies' % n, n=n, curs=['usd', 'eur'], faults=False, change=change,
                            must=['fetched', 'cached']))
            out.append(Case('rates_fault_%d_%s' % (n, c), rates, '%d calls with outages' % n, n=min(n, 5), curs=['jpy'], faults=True, change=change,
                            must=['fetched', 'cached', 'outage'], weight=5))
            out.append(Case('fees_%d_%s' % (n, c), fees, '%d calls, both speeds' % n, n=n, faults=False, change=change, must=['fetched', 'cached']))
            out.append(Case('fees_fault_%d_%s' % (n, c), fees, '%d calls, both speeds, with outages' % n, n=3 if q else min(n, 4), faults=True, change=change,
                            must=['fetched', 'cached', 'stale', 'default'], weight=5))
    return out
