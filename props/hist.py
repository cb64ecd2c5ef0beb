"""Histories: several harnesses of a property one after the other in one process, on the same inputs where they share
names, so that state a call leaves behind (a cache, a changed argument) is visible to the next one."""
from symbit.common import Case


WALLETS = None


def shared(key, make):
    """within a history the same wallet object throughout, so that what it remembers of earlier calls is visible; else a new one"""
    if WALLETS is None:
        return make()
    if key not in WALLETS:
        WALLETS[key] = make()
    return WALLETS[key]


class Sub:
    """the harness h under a name prefix; names in share are drawn once for all parts"""

    def __init__(self, h, pre, share, memo):
        self._h, self._pre, self._share, self._memo = h, pre, share, memo

    def __getattr__(self, name):
        v = getattr(self._h, name)
        if name not in ('int', 'bits', 'bool', 'bytes', 'blob', 'str', 'decimal', 'float', 'fork', 'observe'):
            return v

        def draw(n, *a, **k):
            if name == 'observe':
                return v(self._pre + n, *a, **k)
            if n in self._share or '*' in self._share and name != 'fork':
                key = (name, n, repr(a), repr(k))
                if key not in self._memo:
                    self._memo[key] = v(n, *a, **k)
                return self._memo[key]
            return v(self._pre + n, *a, **k)
        return draw


def history(h, parts, share, reverse):
    global WALLETS
    memo = {}
    WALLETS = {}
    try:
        in_turn(h, parts, share, reverse, memo)
    finally:
        WALLETS = None


def in_turn(h, parts, share, reverse, memo):
    order = list(enumerate(parts))
    if reverse and h.fork('order', 2):
        order.reverse()
    for i, (fn, kw) in order:
        fn(Sub(h, '%d.' % i, share, memo), **kw)
    h.reach('history')


def case(name, bounds, parts, share=('*',), reverse=True, **k):
    return Case('hist_' + name, history, 'history: ' + bounds, parts=parts, share=tuple(share), reverse=reverse,
                must=['history'], **k)
