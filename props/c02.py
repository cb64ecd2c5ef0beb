"""C02: segwit (BIP173) address encoding and decoding."""
from symbit.common import Case
from props import hist

HRPS = ('bc', 'tb', 'bcrt')
ASSUMPTIONS = []


def encode(h, n, hrp):
    """every witness version and every n-byte program"""
    from bit.base32 import encode, decode
    from props import ref
    ver = h.int('ver', 0, 16)
    prog = h.bytes('prog', n, bits=True)
    items = list(prog)
    valid = ver != 0 or n in (20, 32)
    s = encode(hrp, ver, items)
    if valid:
        want = ref.bech32_text(hrp, [ver] + ref.to5(prog))
        h.check_eq('text', s, want)
        v, d = decode(s)
        h.check_eq('version', v, ver)
        h.check_eq('program', d, items)
        v, d = decode(s.upper())
        h.check_eq('upper', (v, d), (ver, items))
        h.reach('valid')
        h.observe('s', s)
    else:
        h.check_eq('invalid v0 length', s, None)


def decode_any(h, n, hrp):
    """n data symbols with a correct checksum: accepted exactly when BIP173 allows it"""
    from bit.base32 import decode
    from props import ref
    vals = [h.bits('d%d' % i, 5) for i in range(n)]
    s = ref.bech32_text(hrp, vals)
    v, d = decode(s)
    nbits = 5 * (n - 1)
    nbytes = nbits // 8
    pad = nbits % 8
    ok = n >= 1 and pad < 5 and 2 <= nbytes <= 40 and len(s) <= 90
    if ok:
        last = vals[n - 1]
        ok = h.all([vals[0] <= 16, (last & ((1 << pad) - 1)) == 0,
                    h.any([vals[0] != 0, nbytes == 20, nbytes == 32])])
    if ok:
        h.check('accepted', v is not None)
        h.check_eq('version', v, vals[0])
        acc = 0
        for x in vals[1:]:
            acc = acc * 32 + x
        h.check_eq('program', bytes(d), (acc >> pad).to_bytes(nbytes, 'big'))
        h.reach('accepted')
    else:
        h.check('rejected', v is None and d is None)
        h.reach('rejected')


def wrong_checksum(h, n, hrp):
    """any data with any checksum but the BIP173 one is refused, whatever the witness version"""
    from bit.base32 import decode
    from props import ref
    vals = [h.bits('d%d' % i, 5) for i in range(n)]
    diff = [h.bits('k%d' % i, 5) for i in range(6)]
    h.assume(h.any([x != 0 for x in diff]))
    h.check_eq('rejected', decode(ref.bech32_text(hrp, vals, diff)), (None, None))


def other_hrp(h, hrp):
    from bit.base32 import decode
    from props import ref
    prog = h.bytes('prog', 20, bits=True)
    s = ref.bech32_text(hrp, [0] + ref.to5(prog))
    h.check_eq('rejected', decode(s), (None, None))


def mixed_case(h, n, i, j):
    """one letter upper, one lower: rejected"""
    from bit.base32 import decode
    from props import ref
    prog = h.bytes('prog', n, bits=True)
    s = ref.bech32_text('bc', [0] + ref.to5(prog))
    a, b = s[i], s[j]
    h.assume(a.isalpha() and b.isalpha())
    t = s[:i] + a.upper() + s[i + 1:]
    h.check_eq('mixed rejected', decode(t), (None, None))


def bad_symbol(h, pos):
    """a character outside the alphabet in the data part is rejected"""
    from bit.base32 import decode
    from props import ref
    prog = h.bytes('prog', 20, bits=True)
    c = h.str('c', 1, lo=0, hi=0x2ff)
    s = ref.bech32_text('bc', [0] + ref.to5(prog))
    h.assume(c not in ref.CHARSET)
    h.assume(c not in 'QPZRY9X8GF2TVDW0S3JN54KHCE6MUA7L1')
    h.check_eq('rejected', decode(s[:pos] + c + s[pos + 1:]), (None, None))


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in ([2, 19, 20, 21, 32, 40] if q else range(2, 41)):
        for hrp in (HRPS if n in (20, 32) else ('bc',)):
            out.append(Case('encode_%s_%d' % (hrp, n), encode, 'hrp %s, version 0..16, every %d-byte program' % (hrp, n),
                            n=n, hrp=hrp, weight=n, must=['valid']))
    for n in ([0, 1, 2, 4, 5, 32, 33, 34, 53, 54, 65, 66, 82, 83] if q else range(0, 84)):
        out.append(Case('decode_%d' % n, decode_any, 'hrp bc, every sequence of %d 5-bit symbols, valid checksum' % n,
                        n=n, hrp='bc', weight=n))
    for n in ((5, 33, 53) if q else (5, 6, 20, 33, 34, 40, 53, 65, 66)):
        for hrp in HRPS if n == 33 or not q else ('bc',):
            out.append(Case('wrong_checksum_%s_%d' % (hrp, n), wrong_checksum, 'every sequence of %d symbols, each of the 2^30-1 wrong checksums' % n,
                            n=n, hrp=hrp, weight=n))
    for hrp in ('b', 'c', 'bcr', 'bt', 'bcrtt', 'lt', 'ltc', 'tc', 'tb1'):
        out.append(Case('other_hrp_' + hrp, other_hrp, 'hrp %s, every 20-byte program' % hrp, hrp=hrp))
    for i, j in ([(0, 1), (1, 0), (10, 0), (41, 0)] if q else [(i, 0 if i else 1) for i in range(42) if i != 2]):
        out.append(Case('mixed_%d_%d' % (i, j), mixed_case, 'position %d upper case, every 20-byte v0 program' % i, n=20,
                        i=i, j=j))
    for pos in ([3, 20, 41] if q else range(3, 42)):
        out.append(Case('bad_symbol_%d' % pos, bad_symbol, 'code points 0..0x2ff outside the alphabet at %d' % pos,
                        pos=pos))
    for n in (20, 32):
        out.append(hist.case('encode_%d' % n, 'the same %d-byte program on all networks, any versions' % n,
                             [(encode, {'n': n, 'hrp': x}) for x in HRPS], share=('prog',), weight=n))
    return out
