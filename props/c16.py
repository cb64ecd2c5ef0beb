"""C16: a message ends up in the transaction completely, in order, as standard OP_RETURN outputs after the payments."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['the message length is bounded per case, its content is arbitrary', 'hashes are uninterpreted, ideal ECDSA']


def opreturn(script):
    """payload of an OP_RETURN output with exactly one well-formed push, else None"""
    if script[0] != 0x6a:
        return None
    n = len(script) - 1
    b = script[1:]
    if n >= 1 and b[0] <= 75:
        ln, data = b[0], b[1:]
    elif n >= 2 and b[0] == 0x4c:
        ln, data = b[1], b[2:]
        if ln <= 75:
            return None
    else:
        return None
    if len(data) != ln:
        return None
    return data


def check_tx(h, raw, dests, message, mlen, limit, change):
    t = txs.parse(h, raw)
    scripts = [s for a, s in t['outs']]
    n = len(dests) + (1 if change else 0)
    chunks = []
    for i, (a, s) in enumerate(t['outs']):
        if i < n:
            h.check('payments come first', s[0] != 0x6a)
        else:
            h.check_eq('message outputs carry nothing', a, b'\x00' * 8)
            d = opreturn(s)
            h.check('well-formed OP_RETURN push', d is not None)
            chunks.append(d)
    got = b''
    for c in chunks:
        h.check('at most %d bytes' % limit, len(c) <= limit)
        h.check('not empty', len(c) > 0)
        got = got + c
    h.check_eq('message', got, message)
    h.reach('checked')


def raw_message(h, kind, net, lo, hi, nout):
    """bytes message of any length in lo..hi"""
    from props.c15 import wallet, utxo
    w = wallet(kind, net)
    us = [utxo(h, w)]
    m = h.bytes('m', lo) if lo == hi else h.blob('m', lo, hi)
    dests = txs.DEST[net][:nout]
    vs = [h.int('v%d' % i, 1, 10 ** 8) for i in range(nout)]
    fee = h.int('fee', 1, 100)
    h.assume(us[0].amount > 10 ** 9)
    tx = w.create_transaction([(d, v, 'satoshi') for d, v in zip(dests, vs)], fee=fee, unspents=us, message=m, message_is_hex=True)
    check_tx(h, bytes.fromhex(tx), dests, m, None, 80, True)


def text_message(h, kind, net, n, lo, hi):
    """text of n code points in a range; UTF-8 encoded"""
    from props.c15 import wallet, utxo
    w = wallet(kind, net)
    us = [utxo(h, w)]
    h.assume(us[0].amount > 10 ** 9)
    m = h.str('m', n, lo=lo, hi=hi)
    tx = w.create_transaction([(txs.DEST[net][0], h.int('v', 1, 10 ** 8), 'satoshi')], fee=10, unspents=us, message=m)
    check_tx(h, bytes.fromhex(tx), txs.DEST[net][:1], m.encode('utf-8'), None, 80, True)


def outputs(h, lo, hi):
    """construct_outputs on one chunk of any length up to the standard limit"""
    from bit.transaction import construct_outputs
    m = h.blob('m', lo, hi)
    o, = construct_outputs([(m, 0)])
    h.check_eq('amount', bytes(o)[:8], b'\x00' * 8)
    raw = bytes(o)
    h.check_eq('script length', raw[8], len(raw) - 9)
    d = opreturn(raw[9:])
    h.check('well-formed', d is not None)
    h.check_eq('payload', d, m)


def empty(h, net):
    """no message, no OP_RETURN output"""
    from props.c15 import wallet, utxo
    w = wallet('single', net)
    us = [utxo(h, w)]
    h.assume(us[0].amount > 10 ** 9)
    m = h.fork('m', [None, '', b''])
    tx = w.create_transaction([(txs.DEST[net][0], h.int('v', 1, 10 ** 8), 'satoshi')], fee=10, unspents=us, message=m,
                              message_is_hex=m == b'')
    t = txs.parse(h, bytes.fromhex(tx))
    h.check_eq('outputs', len(t['outs']), 2)


def cases(tier):
    q = tier == 'quick'
    out = [Case('construct', outputs, 'one chunk of 1..80 bytes', lo=1, hi=80)]
    ranges = [(1, 75), (76, 80), (81, 160), (160, 160), (161, 240), (240, 240), (241, 400)] + ([] if q else [(401, 800), (1, 240)])
    for net in ('main', 'test'):
        out.append(Case('empty_' + net, empty, 'no message', net=net))
        for kind in ('single', 'multi'):
            for lo, hi in ranges:
                for nout in (1, 3):
                    out.append(Case('raw_%s_%s_%d_%d_%d' % (net, kind, lo, hi, nout), raw_message, 'every bytes message of %d..%d bytes' % (lo, hi),
                                    kind=kind, net=net, lo=lo, hi=hi, nout=nout, must=['checked'], weight=hi))
        for n in ([1, 2, 75, 76, 80, 81, 161] if q else [1, 2, 40, 75, 76, 77, 79, 80, 81, 159, 160, 161, 320]):
            for lo, hi in ((0, 127), (128, 0x7ff), (0x800, 0xd7ff), (0x10000, 0x10ffff)) + (((0, 0xd7ff),) if n < 3 else ()):
                if n > 81 and lo:
                    continue
                out.append(Case('text_%s_%d_%x' % (net, n, lo + hi % 251), text_message, 'every text of %d code points in %x..%x' % (n, lo, hi),
                                kind='single', net=net, n=n, lo=lo, hi=hi))
    out.append(hist.case('raw', 'two messages in a row', [(raw_message, {'kind': 'single', 'net': 'main', 'lo': 76, 'hi': 90, 'nout': 1})] * 2, share=(),
                         reverse=False, weight=90))
    out.append(hist.case('kinds', 'a text message after a bytes message and the other way round', [
        (raw_message, {'kind': 'single', 'net': 'test', 'lo': 1, 'hi': 90, 'nout': 1}),
        (text_message, {'kind': 'single', 'net': 'test', 'n': 3, 'lo': 0, 'hi': 0x7ff})], share=(), weight=90))
    return out
