"""Shared by C13, C14: one call of sanitize_tx_data on symbolic UTXOs, amounts and fees, with an independent size model."""
from props import txs

TYPES = {'p2pkh': (148, False), 'p2pkh-uncompressed': (180, False), 'np2wkh': (91, True), 'p2sh': (298, False),
         'np2wsh': (140, True), 'unknown': (180, None)}


def setup(h, types, dests, mode, msg, min_change, fee, maxamt=21 * 10 ** 14, rand=None, order=False):
    from bit.network.meta import Unspent
    from bit.transaction import sanitize_tx_data
    from bit.exceptions import InsufficientFunds
    import math
    from props import ref
    h.control_random(rand)
    us = []
    for i, t in enumerate(types):
        us.append(Unspent(h.int('a%d' % i, 1, maxamt), 1, 'aa', ('%02x' % (i // 2)) * 32, i % 2, type=t))  # pairs of outputs of one transaction
    if order:
        for i in range(1, len(us)):
            h.assume(us[i - 1].amount >= us[i].amount)
    vs = [h.int('v%d' % i, 1, maxamt) for i in range(len(dests))]
    outs = [(d, v, 'satoshi') for d, v in zip(dests, vs)]
    leftover = txs.DEST['main'][0]
    rate = h.int('fee', fee[0], fee[1]) if isinstance(fee, tuple) else fee
    mc = h.int('min_change', min_change[0], min_change[1]) if isinstance(min_change, tuple) else min_change
    message = None
    if msg:
        message = b'm' * msg
    given = list(us)
    e, r = h.attempt(sanitize_tx_data, us, outs, rate, leftover, combine=mode in ('combine', 'absolute'), message=message,
                     absolute_fee=mode in ('absolute', 'draw-absolute'), min_change=mc, version='main', message_is_hex=True)
    nmsg = (msg + 79) // 80
    scripts = {txs.DEST['main'][0]: 25, txs.DEST['main'][1]: 23, txs.DEST['main'][2]: 22}
    out_size = sum(scripts[d] + 9 for d in dests) + nmsg * 89
    return {'given': given, 'outs': outs, 'vs': vs, 'dests': dests, 'leftover': leftover, 'rate': rate, 'mc': mc, 'e': e, 'r': r,
            'out_size': out_size, 'change_size': 34, 'target': sum(vs), 'nmsg': nmsg, 'message': message, 'us': us,
            'insufficient': isinstance(e, InsufficientFunds)}


def size(sel, out_size, change_size):
    """estimated size in bytes of a transaction spending sel with a change output, rounded up"""
    sz = sum(u.vsize for u in sel) + out_size + change_size + 10
    return sz + 1 if any(TYPES[u.type][1] for u in sel) else sz


def expect_sizes(h, given):
    for u in given:
        h.check_eq('type size', u.vsize, TYPES[u.type][0])


def split(h, s):
    """(selected, change or None) after structural checks"""
    sel, outs = s['r']
    n = len(s['dests'])
    h.check('requested outputs come first and unchanged', h.eq([tuple(o) for o in outs[:n]], list(zip(s['dests'], s['vs']))))
    rest = list(outs[n:])
    change = None
    if len(rest) > s['nmsg']:
        h.check_eq('change goes to the leftover address', rest[0][0], s['leftover'])
        change = rest[0][1]
        h.check('change is positive', change > 0)
        rest = rest[1:]
    h.check_eq('number of message outputs', len(rest), s['nmsg'])
    h.check('message outputs carry nothing', h.all([o[1] == 0 for o in rest]))
    h.check('amounts are integers', h.all([isinstance(o[1], int) for o in outs]))
    return sel, change
