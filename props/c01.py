"""C01: Base58 / Base58Check is a bijection between byte strings and canonical text, and rejects everything else."""
from symbit.common import Case
from props import hist

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
ASSUMPTIONS = ['SHA-256 is an uninterpreted function (functional consistency only)',
               'byte strings that are entirely zero (text entirely "1") are outside the round trip: known finding']


def ref_value(s):
    n = 0
    for ch in s:
        n = n * 58 + B58.index(ch)
    return n


def roundtrip(h, n):
    from bit.base58 import b58encode, b58decode
    d = h.bytes('d', n)
    h.assume(d != b'\x00' * n)
    s = b58encode(d)
    h.check_eq('value', ref_value(s), int.from_bytes(d, 'big'))
    h.check_eq('roundtrip', b58decode(s), d)
    h.observe('s', s)


def check_roundtrip(h, n):
    from bit.base58 import b58encode_check, b58decode_check
    d = h.bytes('d', n)
    h.assume(d != b'\x00' * n)
    s = b58encode_check(d)
    h.check_eq('roundtrip', b58decode_check(s), d)


def decode_any(h, n):
    """every string over the alphabet decodes to bytes whose encoding is that string again"""
    from bit.base58 import b58encode, b58decode
    s = h.str('s', n, alphabet=B58)
    h.assume(s != '1' * n)
    d = b58decode(s)
    h.check_eq('canonical', b58encode(d), s)
    h.check_eq('value', int.from_bytes(d, 'big'), ref_value(s))


def decode_bad_char(h, n, pos):
    from bit.base58 import b58decode, b58decode_check
    bad = h.str('c', 1)
    h.assume(bad not in B58)
    a = h.str('a', pos, alphabet=B58)
    b = h.str('b', n - pos - 1, alphabet=B58)
    e, r = h.attempt(b58decode, a + bad + b)
    h.check('ValueError', isinstance(e, ValueError))
    e, r = h.attempt(b58decode_check, a + bad + b)
    h.check('ValueError_check', isinstance(e, ValueError))


def check_reject(h, n):
    """b58decode_check never returns a payload whose checksum is not the one in the text"""
    from bit.base58 import b58encode_check, b58decode_check, b58decode
    from bit.crypto import double_sha256_checksum
    payload = h.bytes('p', n)
    h.assume(payload != b'\x00' * n)
    chk = h.bytes('c', 4)
    from bit.base58 import b58encode
    s = b58encode(payload + chk)
    e, r = h.attempt(b58decode_check, s)
    if e is None:
        h.check_eq('payload', r, payload)
        h.check_eq('checksum', chk, double_sha256_checksum(payload))
        h.reach('accepted')
    else:
        h.check('ValueError', isinstance(e, ValueError))
        h.check('rejected only for a wrong checksum', chk != double_sha256_checksum(payload))
        h.reach('rejected')


def check_text(h, n):
    """any text: b58decode_check accepts it only if it is the Base58Check encoding of what it returns"""
    from bit.base58 import b58encode_check, b58decode_check
    s = h.str('s', n, alphabet=B58)
    e, r = h.attempt(b58decode_check, s)
    if e is None:
        h.check_eq('the encoding of the payload', b58encode_check(r), s)
        h.check('payload and checksum', len(r) + 4 <= n)
    else:
        h.check('ValueError', isinstance(e, ValueError))
        h.reach('rejected')


def zeros(h, n):
    """the all-zero corner (see known findings): n is the number of zero bytes"""
    from bit.base58 import b58encode, b58decode
    z = b'\x00' * n
    h.check_eq('encode', b58encode(z), '1' * n)
    back = b58decode(b58encode(z))
    h.check('only zeros, at most one more', back == z or back == z + b'\x00')
    h.check_eq('zero_roundtrip', back, z)


def zeros_check(h):
    from bit.base58 import b58encode_check, b58decode_check
    n = h.fork('n', 40)
    z = b'\x00' * n
    h.check_eq('roundtrip', b58decode_check(b58encode_check(z)), z)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in ([1, 2, 3, 4, 5, 8, 16, 20, 21, 25, 33, 34, 37, 38, 65, 82] if q else list(range(1, 41))):
        out.append(Case('roundtrip_%d' % n, roundtrip, 'every %d-byte string, not all zero' % n, n=n, weight=n))
    for n in ([1, 2, 20, 21, 22, 33, 34, 35] if q else list(range(1, 37)) + [78]):
        out.append(Case('check_roundtrip_%d' % n, check_roundtrip, 'every %d-byte payload, not all zero' % n, n=n,
                        weight=n))
    for n in ([1, 2, 6, 12] if q else [1, 2, 4, 6, 11, 12, 16, 24, 34, 35]):
        out.append(Case('decode_any_%d' % n, decode_any, 'every %d-character base58 string, not all "1"' % n, n=n,
                        weight=n))
    for n, pos in ([(1, 0), (34, 0), (34, 17), (34, 33)] if q else [(1, 0)] + [(34, i) for i in range(34)]):
        out.append(Case('bad_char_%d_%d' % (n, pos), decode_bad_char,
                        '%d characters, any non-base58 code point at position %d' % (n, pos), n=n, pos=pos))
    for n in ([1, 21] if q else [1, 4, 21, 33, 34]):
        out.append(Case('check_reject_%d' % n, check_reject, 'every %d-byte payload with every 4-byte checksum' % n,
                        must=['accepted', 'rejected'], n=n, weight=n))
    for n in (0, 1, 2, 3, 4, 5, 6, 7) if q else list(range(0, 13)) + [26, 34, 51, 52]:
        out.append(Case('check_text_%d' % n, check_text, 'every base58 text of %d characters' % n, must=['rejected'], n=n))
    for n in (1, 5, 25):
        out.append(Case('zeros_%d' % n, zeros, '%d zero bytes' % n, n=n))
    out.append(Case('zeros_check', zeros_check, '0..39 zero bytes under Base58Check'))
    for n in ([25] if q else [5, 25, 38]):
        out.append(hist.case('roundtrip_%d' % n, 'the same %d bytes with and without checksum, in both orders' % n,
                             [(roundtrip, {'n': n}), (check_roundtrip, {'n': n})]))
    return out
