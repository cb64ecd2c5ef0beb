"""C18: amounts convert exactly between satoshi, bitcoin units and currencies, rounded down, whatever was converted before."""
from symbit.common import Case

ASSUMPTIONS = ['amounts up to 21e6 BTC; fiat rates with a bounded number of digits', 'a float argument stands for the decimal its repr shows']
UNITS = {'satoshi': (1, 0), 'ubtc': (100, 2), 'mbtc': (100000, 5), 'btc': (10 ** 8, 8)}
MAXSAT = 21 * 10 ** 14


def convert(h, cached):
    from bit.network import rates
    return (rates.currency_to_satoshi_cached, rates.satoshi_to_currency_cached) if cached else (
        rates.currency_to_satoshi, rates.satoshi_to_currency)


def to_satoshi(h, unit, exp, form, cached):
    """amount with -exp decimals as int, Decimal, text or float"""
    f, _ = convert(h, cached)
    per, prec = UNITS[unit]
    hi = MAXSAT * 10 ** (-exp) // per
    if form == 'int':
        a = h.int('a', 0, hi)
        coef, arg = a, a
    elif form == 'float':
        arg = h.float('a', 0, hi, exp)
        coef = None
    else:
        coef = h.int('a', 0, hi)
        d = h.scaled(coef, exp)
        arg = str(d) if form == 'text' else d
    r = f(arg, unit)
    h.check('an integer', isinstance(r, int))
    if form == 'int':
        want = coef * per
        h.check_eq('exact', r, want)
        return
    if form == 'float':
        # few enough digits for the default decimal precision
        import decimal
        coef = decimal.Decimal(str(arg))
        exp = 0
    # r <= amount * per < r + 1, in whole numbers
    h.check('not more than the amount', coef * per >= r * 10 ** -exp)
    h.check('less than one satoshi lost', coef * per < (r + 1) * 10 ** -exp)


def to_unit(h, unit, cached):
    """satoshi -> text -> satoshi is the identity; the text is plain decimal"""
    f, g = convert(h, cached)
    import decimal
    per, prec = UNITS[unit]
    n = h.int('n', 0, MAXSAT)
    t = g(n, unit)
    h.check('text', isinstance(t, str))
    h.check('plain notation', 'E' not in t)
    h.check('no superfluous zeros', '.' not in t or (t[-1] != '0' and t[-1] != '.'))
    h.check_eq('round trip', f(t, unit), n)
    h.check('exact value', decimal.Decimal(t) * per == n)


def fiat(h, cur, prec, ratedigits, cached):
    """satoshi -> currency at a given integer rate of satoshi per unit: rounded down to the currency's precision"""
    import decimal
    from bit.network import rates
    rate = h.int('rate', 1, 10 ** ratedigits)
    stub(h, cur, rate)
    f, g = convert(h, cached)
    n = h.int('n', 0, 10 ** 12)
    t = g(n, cur)
    v = decimal.Decimal(t)
    scaled = v * 10 ** prec
    s = int(scaled)
    h.check('no more than %d decimals' % prec, scaled == s)
    h.check('not more than the value', s * rate <= n * 10 ** prec)
    h.check('rounded down by less than one step', (s + 1) * rate > n * 10 ** prec)
    a = h.int('amount', 0, 10 ** 9)
    r = f(a, cur)
    h.check_eq('currency to satoshi', r, a * rate)


def fiat_amount(h, cur, exp, form, cached):
    """currency -> satoshi for amounts with decimals, at a given rate: the product, rounded down"""
    rate = h.int('rate', 1, 10 ** 6)
    stub(h, cur, rate)
    f, _ = convert(h, cached)
    n = h.int('n', 0, 10 ** (9 - exp))
    d = h.scaled(n, exp)
    r = f(str(d) if form == 'text' else d, cur)
    h.check('not more than the amount', n * rate >= r * 10 ** -exp)
    h.check('less than one satoshi lost', n * rate < (r + 1) * 10 ** -exp)


def stub(h, cur, rate):
    """the rate services both answer with `rate` satoshi per unit"""
    from props import http
    import decimal

    def handler(req):
        if 'bitpay' in req.url:
            return http.Response(503)
        return http.Response(200, text=str(decimal.Decimal(rate) / 10 ** 8) if not h.symbolic else dec_text(rate))
    http.install(h, handler)


def dec_text(rate):
    import decimal
    return str(decimal.Decimal(rate).scaleb(-8))


def history(h, first, cached):
    """a conversion is the same whatever network activity and conversions went before"""
    import decimal
    from bit.network import rates
    from bit.network.services import RPCHost
    from props import http
    amount = h.float('node', 1, MAXSAT, -8)

    def handler(req):
        if 'localhost' in req.url:
            return http.Response(200, data={'result': amount if first == 'balance' else [], 'error': None})
        return http.Response(200, text='0.00001234', data={'data': {'rate': 81037.25}})
    http.install(h, handler)
    if first == 'balance':
        node = RPCHost('u', 'p', 'localhost', 8332, False, '')
        node.get_balance('1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2')
    elif first == 'unspent':
        RPCHost('u', 'p', 'localhost', 8332, False, '').get_unspent('1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2')
    elif first == 'fiat':
        rates.satoshi_to_currency(h.int('x', 0, 10 ** 12), 'usd')
        rates.currency_to_satoshi_cached(3, 'usd')
    else:
        rates.satoshi_to_currency(h.int('x', 0, 10 ** 12), 'btc')
    h.check_eq('decimal precision untouched', decimal.getcontext().prec, 28)
    f, g = convert(h, cached)
    n = h.int('n', 0, MAXSAT)
    u = h.fork('unit', ['satoshi', 'ubtc', 'mbtc', 'btc'])
    h.check_eq('round trip', f(g(n, u), u), n)


def supported(h):
    """every advertised currency has a precision and a working rate; unknown ones are refused"""
    from bit.network import rates
    from props import http
    rate = h.int('rate', 1, 10 ** 7)
    asked = []
    kind = h.fork('kind', 4)

    def handler(req):
        if 'bitpay' in req.url:
            asked.append(req.url.rsplit('/', 1)[-1].lower())
            if kind < 3:
                import requests
                raise [requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.ReadTimeout][kind]('down')
            return http.Response(503)
        asked.append(req.query['currency'].lower())
        return http.Response(200, text=dec_text(rate))
    http.install(h, handler, limit=200)
    for cur in rates.SUPPORTED_CURRENCIES:
        if cur in UNITS:
            h.check_eq(cur, rates.currency_to_satoshi(7, cur), 7 * UNITS[cur][0])
            continue
        del asked[:]
        h.check_eq('rate of ' + cur, rates.currency_to_satoshi(1, cur), rate)
        h.check('asked for this currency', set(asked) == {cur})
        h.check_eq('cached rate of ' + cur, rates.currency_to_satoshi_cached(2, cur), 2 * rate)
    e, _ = h.attempt(rates.currency_to_satoshi, 1, 'xyz')
    h.check('unknown currency refused', e is not None)


def bitpay_all(h, cur):
    """every currency at the first service"""
    from bit.network import rates
    from props import http
    rate = h.int('rate', 1, 10 ** 7)

    def handler(req):
        h.check('asked for this currency', req.url.lower().endswith('/' + cur))
        return http.Response(200, data={'data': {'rate': rate}})
    http.install(h, handler)
    r = rates.currency_to_satoshi(1, cur)
    h.check('exact, rounded down', h.all([rate * r <= 10 ** 8, rate * (r + 1) > 10 ** 8]))


def no_rate(h, cur):
    """no service at all: an error, never an invented rate"""
    import requests
    from bit.network import rates
    from props import http
    kind = [h.fork('kind%d' % i, 4) for i in range(2)]
    n = [0]

    def handler(req):
        k = kind[min(n[0], 1)]
        n[0] += 1
        if k < 3:
            raise [requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.ReadTimeout][k]('down')
        return http.Response(h.int('status', 400, 599))
    http.install(h, handler)
    for f in (rates.currency_to_satoshi, rates.currency_to_satoshi_cached):
        n[0] = 0
        e, r = h.attempt(f, h.int('a', 0, 100), cur)
        h.check('an error', isinstance(e, ConnectionError))
        h.check_eq('both services tried', n[0], 2)


def bitpay(h, digits, exp):
    """rate in units per bitcoin -> satoshi per unit, rounded down"""
    from bit.network import rates
    from props import http
    rate = h.float('rate', 1, 10 ** digits, exp)
    http.install(h, lambda req: http.Response(200, data={'data': {'rate': rate}}) if 'bitpay' in req.url else http.Response(503))
    r = rates.currency_to_satoshi(1, 'eur')
    import decimal
    d = decimal.Decimal(str(rate))
    h.check('not more', d * r <= 10 ** 8)
    h.check('less than one satoshi lost', d * (r + 1) > 10 ** 8)


def cases(tier):
    q = tier == 'quick'
    out = [Case('supported', supported, 'every currency, any rate')]
    for cur in ('usd eur gbp jpy cny cad aud nzd rub brl chf sek dkk isk pln hkd krw sgd thb twd clp').split():
        out.append(Case('bitpay_' + cur, bitpay_all, 'every integer rate up to 1e7', cur=cur))
        out.append(Case('norate_' + cur, no_rate, 'every combination of outages', cur=cur))
    for cached in (False, True):
        c = 'c' if cached else 'u'
        for unit in UNITS:
            for form in ('int', 'decimal', 'text', 'float'):
                for exp in ([0] if form == 'int' else [0, -2, -8, -12, -24] if form != 'float' else [0, -2, -8]):
                    out.append(Case('to_satoshi_%s_%s_%s_%d' % (c, unit, form, -exp), to_satoshi, 'every amount with %d decimals up to 21e6 BTC' % -exp,
                                    unit=unit, exp=exp, form=form, cached=cached))
            out.append(Case('to_unit_%s_%s' % (c, unit), to_unit, 'every number of satoshi up to 21e14', unit=unit, cached=cached))
        for cur, prec in (('usd', 2), ('jpy', 0), ('krw', 0), ('clp', 0), ('isk', 2), ('chf', 2)):
            out.append(Case('fiat_%s_%s' % (c, cur), fiat, 'every integer rate up to 1e5 satoshi per unit, every amount', cur=cur, prec=prec, ratedigits=5, cached=cached))
        for exp in (-2, -8, -24):
            for form in ('text', 'decimal'):
                out.append(Case('fiat_amount_%s_%s_%d' % (c, form, -exp), fiat_amount, 'every integer rate up to 1e6, every amount up to 1e9 with %d decimals' % -exp,
                                cur='eur', exp=exp, form=form, cached=cached))
        for first in ('balance', 'unspent', 'fiat', 'btc'):
            out.append(Case('history_%s_%s' % (c, first), history, 'any conversion after ' + first, first=first, cached=cached))
    for digits, exp in ((9, -2), (8, 0), (10, -4)):
        out.append(Case('bitpay_%d_%d' % (digits, -exp), bitpay, 'every rate of up to %d digits with %d decimals' % (digits, -exp), digits=digits, exp=exp))
    return out
