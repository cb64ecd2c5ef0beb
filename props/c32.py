"""C32: the byte, hex and integer helpers lose nothing: each conversion has the documented value and its inverse undoes it."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = []


def hexes(h, lo, hi):
    """bytes -> hex -> bytes, either case"""
    from bit.utils import bytes_to_hex, hex_to_bytes
    b = h.bytes('b', lo) if lo == hi else h.blob('b', lo, hi)
    t, u = bytes_to_hex(b), bytes_to_hex(b, upper=True)
    h.check_eq('hex', t, b.hex())
    h.check_eq('upper case hex', u, b.hex().upper())
    h.check_eq('back', hex_to_bytes(t), b)
    h.check_eq('back from upper case', hex_to_bytes(u), b)


def odd(h, n, upper):
    """hex text with an odd number of digits stands for the number it writes, with a leading zero for the missing digit"""
    from bit.utils import hex_to_bytes, hex_to_int
    b = h.bytes('b', n)
    h.assume(b[0] < 16)
    t = (b.hex().upper() if upper else b.hex())[1:]
    if n <= 5:
        h.check_eq('value', hex_to_int(t), int.from_bytes(b, 'big'))
    h.check_eq('bytes', hex_to_bytes(t), b)


def numbers(h, bits):
    from bit.utils import int_to_hex, hex_to_int, int_to_unknown_bytes
    n = h.int('n', 0, 2 ** bits - 1)
    t = int_to_hex(n)
    h.check_eq('number back from hex', hex_to_int(t), n)
    h.check_eq('from upper case', hex_to_int(int_to_hex(n, upper=True)), n)
    h.check('no superfluous zeros', h.any([len(t) == 1, t[0] != '0']))
    for order in ('big', 'little'):
        b = int_to_unknown_bytes(n, order)
        h.check_eq('number back from bytes', int.from_bytes(b, order), n)
        h.check('least number of bytes', h.any([len(b) == 1, b[0 if order == 'big' else -1] != 0]))
    h.check_eq('big is the default', int_to_unknown_bytes(n), int_to_unknown_bytes(n, 'big'))


def flip(h, lo, hi):
    from bit.utils import flip_hex_byte_order
    b = h.bytes('b', lo) if lo == hi else h.blob('b', lo, hi)
    h.check_eq('reversed', flip_hex_byte_order(b.hex()), b[::-1].hex())
    h.check_eq('twice is nothing', flip_hex_byte_order(flip_hex_byte_order(b.hex())), b.hex())


def chunks(h, n, size):
    from bit.utils import chunk_data
    b = h.bytes('b', n)
    c = list(chunk_data(b, size))
    h.check_eq('number of chunks', len(c), (n + size - 1) // size)
    h.check_eq('nothing lost', b''.join(c) if c else b'', b)
    h.check('all but the last are full', all(len(x) == size for x in c[:-1]))


def streams(h, lo, hi):
    """reading takes exactly what was asked for from the front, and leaves the rest"""
    from bit.utils import read_bytes, read_var_string, read_var_int, read_as_int, read_segwit_string, int_to_varint
    from props import ref
    a, rest = h.blob('a', lo, hi), h.blob('rest', 0, 100)
    x, r = read_bytes(a + rest, len(a))
    h.check_eq('bytes', (x, r), (a, rest))
    x, r = read_var_string(ref.varint(len(a)) + a + rest)
    h.check_eq('string', (x, r), (a, rest))
    x, r = read_segwit_string(ref.varint(len(a)) + a + rest)
    h.check_eq('witness item', (x, r), (ref.varint(len(a)) + a, rest))
    x, r = read_var_int(int_to_varint(len(a)) + rest)
    h.check_eq('size', (x, r), (len(a), rest))
    for k in (1, 2, 4, 8):
        n = h.int('n%d' % k, 0, 2 ** (8 * k) - 1)
        x, r = read_as_int(n.to_bytes(k, 'little') + rest, k)
        h.check_eq('number', (x, r), (n, rest))


def cases(tier):
    q = tier == 'quick'
    out = []
    for lo, hi in [(0, 0), (1, 1), (33, 33), (0, 300), (60000, 70000)] + ([] if q else [(2, 2), (100, 100), (0, 10 ** 6)]):
        out.append(Case('hex_%d_%d' % (lo, hi), hexes, 'any bytes of length %d to %d' % (lo, hi), lo=lo, hi=hi))
        out.append(Case('flip_%d_%d' % (lo, hi), flip, 'any bytes of length %d to %d' % (lo, hi), lo=lo, hi=hi))
        if hi:
            out.append(Case('stream_%d_%d' % (lo, hi), streams, 'items of %d to %d bytes' % (lo, hi), lo=lo, hi=hi))
    for n in (1, 2, 3, 9) if q else (1, 2, 3, 4, 5, 6, 9, 16, 33, 64):
        for upper in (False, True):
            out.append(Case('odd_%d_%d' % (n, upper), odd, 'any hex text of %d digits' % (2 * n - 1), n=n, upper=upper))
    for bits in (8, 16, 24, 64) if q else (8, 16, 24, 32, 64, 128, 256):
        out.append(Case('number_%d' % bits, numbers, 'numbers below 2^%d' % bits, bits=bits))
    for n, size in [(0, 4), (1, 4), (4, 4), (9, 4), (80, 80), (81, 80), (240, 80), (5, 1), (200, 150), (260, 255), (300, 256)] + ([] if q else [(n, s) for n in range(30, 60) for s in (7, 40)]):
        out.append(Case('chunk_%d_%d' % (n, size), chunks, 'any %d bytes in chunks of %d' % (n, size), n=n, size=size))
    out.append(hist.case('hex', 'two conversions in a row, of the same or other bytes', [(hexes, {'lo': 3, 'hi': 3})] * 2, share=(), reverse=False))
    out.append(hist.case('number', 'two numbers in a row', [(numbers, {'bits': b}) for b in (16, 24)], share=()))
    out.append(hist.case('flip', 'two reversals in a row', [(flip, {'lo': 3, 'hi': 3})] * 2, share=(), reverse=False))
    return out
