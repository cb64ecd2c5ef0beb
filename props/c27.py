"""C27: generated key and address pairs belong together, and vanity addresses carry the requested prefix."""
from symbit.common import Case

ASSUMPTIONS = ['the curve point of a secret is an uninterpreted function; replays use the real curve',
               'search workers run one after the other: their concurrent scheduling is not explored',
               'in the search, candidate keys are drawn from eight fixed keys in any order']


def pair(h):
    from props import ideal as I, ref
    ideal = I.install(h)
    import bit.keygen as K
    from bit.format import wif_to_bytes
    e, r = h.attempt(K.generate_key_address_pair)
    h.check('no error', e is None)
    wif, addr = r
    sec, compressed, version = wif_to_bytes(wif)
    h.check_eq('network', version, 'main')
    pub = ideal(sec).public_key.format(compressed=compressed)
    h.check_eq('the address of the key', addr, ref.b58check(b'\x00' + ref.hash160(pub)))


# 7 and 943, 4 and 96: addresses that begin alike but for case; 182, 1501: addresses whose beginning repeats (11.., 1A1A..)
SECRETS = [3, 7, 943, 4, 96, 2 ** 255 - 31, 182, 1501]


def known(i):
    import coincurve
    from props import ref
    k = coincurve.PrivateKey.from_int(SECRETS[i])
    return k, ref.b58check(b'\x00' + ref.hash160(k.public_key.format()))


class Flag:
    def __init__(self, h=None, name=''):
        self.on, self.h, self.name, self.k = False, h, name, 0

    def is_set(self):
        if self.h is not None and not self.on:
            self.k += 1
            if self.k > 4 or self.h.fork('%s%d' % (self.name, self.k), 2):
                self.on = True
        return self.on

    def set(self):
        self.on = True


class Counter:
    def __init__(self, *a, **k):
        self.value = 0

    def get_lock(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Items:
    def __init__(self, *a, **k):
        self.items = []

    def put_nowait(self, x):
        self.items.append(x)

    put = put_nowait

    def get(self, *a, **k):
        return self.items[0]


def keys(h, draws, last):
    """ECPrivateKey() draws any two of the known keys, then the last one"""
    import coincurve
    import bit.keygen as K
    real = coincurve.PrivateKey

    class Drawn:
        def __new__(cls, *a, **k):
            draws.append(h.fork('draw%d' % len(draws), len(SECRETS)) if len(draws) < 2 else last)
            return known(draws[-1])[0]
    for n, v in list(vars(K).items()):
        if v is real:
            h.patch(K, n, Drawn)


def worker(h, plen):
    """one search worker, stopped by another worker's match at any time"""
    import bit.keygen as K
    i = h.fork('wanted', len(SECRETS))
    prefix = known(i)[1][:plen]
    draws = []
    keys(h, draws, 0)
    q, flag, c = Items(), Flag(h, 'other'), Counter()
    e, r = h.attempt(K.generate_key_address_pairs, prefix, c, flag, q)
    h.check('no error', e is None)
    hits = [d for d in draws if known(d)[1].startswith(prefix)]
    if hits:
        h.check('reported once', len(q.items) == 1)
        sec, addr = q.items[0]
        h.check_eq('pair', (sec, addr), (known(hits[0])[0].secret, known(hits[0])[1]))
        h.check('other workers are stopped', flag.on)
        h.reach('match')
    else:
        h.check('nothing reported', len(q.items) == 0)
        h.reach('stopped')
    h.check_eq('counted', c.value, len(draws))


def worker_any(h, plen):
    """one search worker and any prefix"""
    import bit.keygen as K
    from props import ref
    prefix = '1' + h.str('prefix', plen - 1, alphabet=ref.B58)
    draws = []
    keys(h, draws, 0)
    q, flag, c = Items(), Flag(h, 'other'), Counter()
    e, r = h.attempt(K.generate_key_address_pairs, prefix, c, flag, q)
    h.check('no error', e is None)
    if q.items:
        h.check('reported once', len(q.items) == 1)
        sec, addr = q.items[0]
        h.check('prefix', addr[:plen] == prefix)
        h.check_eq('pair', (sec, addr), (known(draws[-1])[0].secret, known(draws[-1])[1]))
        h.reach('match')
    else:
        h.check('no match', h.all([known(d)[1][:plen] != prefix for d in draws]))
        h.reach('stopped')


def search(h, plen, one):
    """the whole search"""
    import builtins
    import sys
    import time
    import bit.keygen as K
    from props import ref
    from bit.format import wif_to_bytes
    i = h.fork('wanted', len(SECRETS))
    prefix = known(i)[1][:plen]
    given = prefix if one else prefix[1:]
    if given.startswith('1'):
        given = prefix      # otherwise it asks for another prefix
    draws, lines = [], []
    keys(h, draws, i)
    n = [0]

    class Proc:
        def __init__(self, target=None, args=(), kwargs=None, **k):
            self.f, self.a = target, args

        def start(self):
            n[0] += 1
            self.f(*self.a)

        def join(self, *a):
            pass

        def terminate(self):
            pass
    h.patch(K, 'Process', Proc)
    h.patch(K, 'Event', Flag)
    h.patch(K, 'Queue', Items)
    h.patch(K, 'Value', Counter)
    h.patch(time, 'sleep', lambda s: None)
    h.patch(builtins, 'print', lambda *a, **k: lines.append(' '.join(str(x) for x in a)))

    class Out:
        def write(self, s):
            lines.append(s)

        def flush(self):
            pass
    h.patch(sys, 'stdout', Out())
    cores = h.fork('cores', ['all', 1, '1', 0])
    e, r = h.attempt(K.generate_matching_address, given, cores)
    h.check('no error', e is None)
    text = ''.join(lines)
    wif, addr = text.split('WIF: ')[1].split()[0], text.split('Address: ')[1].split()[0]
    h.check('prefix', addr.startswith(prefix))
    sec, compressed, version = wif_to_bytes(wif)
    import coincurve
    pub = coincurve.PrivateKey(sec).public_key.format(compressed=compressed)
    h.check_eq('the address of the key', addr, ref.b58check(b'\x00' + ref.hash160(pub)))
    h.reach('found')


def refused(h, n):
    """a prefix no address can have is refused at once"""
    import bit.keygen as K
    from props import ref
    p = h.str('p', n)
    h.assume(h.any([c not in ref.B58 for c in p]))

    def never(*a, **k):
        raise RuntimeError('search started')
    h.patch(K, 'Process', never)
    e, r = h.attempt(K.generate_matching_address, p)
    h.check('refused', isinstance(e, ValueError))


def empty(h):
    """without a prefix: any pair"""
    from props import ideal as I, ref
    ideal = I.install(h)
    import bit.keygen as K
    from bit.format import wif_to_bytes
    e, r = h.attempt(K.generate_matching_address, '')
    h.check('no error', e is None)
    sec, compressed, version = wif_to_bytes(r[0])
    h.check_eq('pair', r[1], ref.b58check(b'\x00' + ref.hash160(ideal(sec).public_key.format(compressed=compressed))))


def cases(tier):
    q = tier == 'quick'
    out = [Case('pair', pair, 'every generated secret'), Case('empty', empty, 'every generated secret')]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        out.append(Case('refused_%d' % n, refused, 'every text of %d characters with one outside the alphabet' % n, n=n))
    for n in (2, 3) if q else (2, 3, 4, 6):
        out.append(Case('worker_%d' % n, worker, 'any order of eight keys, any interruption, prefix of %d' % n, plen=n, must=['match', 'stopped']))
        out.append(Case('worker_any_%d' % n, worker_any, 'any order of eight keys, any interruption, any prefix of %d' % n, plen=n, must=['match', 'stopped']))
        for one in (0, 1):
            out.append(Case('search_%d_%d' % (n, one), search, 'any order of eight keys, prefix of %d' % n, plen=n, one=one, must=['found']))
    return out
