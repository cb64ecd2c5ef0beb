"""C03: a Bech32 segwit address with up to t wrong characters is never accepted."""
from symbit.common import Case

ASSUMPTIONS = ['substitutions only (as in BIP173), characters replaced by other characters of the Bech32 alphabet in the '
               'data part; positions enumerated, address contents and replacement symbols symbolic']


def detect(h, n, t, first, hrp):
    """t substitutions, the first at data position `first`, the rest at every later position"""
    from bit.base32 import decode
    from props import ref
    prog = h.bytes('prog', n, bits=True)
    ver = 0
    s = ref.bech32_text(hrp, [ver] + ref.to5(prog))
    off = len(hrp) + 1
    length = len(s) - off
    pos = [first]
    for k in range(1, t):
        lo = pos[-1] + 1
        pos.append(lo + h.fork('pos%d' % k, length - (t - 1 - k) - lo))
    new = [ref.CHARSET.index(c) for c in s[off:]]
    for k, p in enumerate(pos):
        e = h.bits('e%d' % k, 5)
        h.assume(e != 0)
        new[p] = new[p] ^ e
    text = hrp + '1' + ''.join([ref.CHARSET[d] for d in new])
    v, d = decode(text)
    h.check('rejected', v is None and d is None)


def swap_hrp(h, n, a, b):
    """an address of one network re-labelled for another is rejected"""
    from bit.base32 import decode
    from props import ref
    prog = h.bytes('prog', n, bits=True)
    ver = h.bits('ver', 5)
    s = ref.bech32_text(a, [ver] + ref.to5(prog))
    v, d = decode(b + s[len(a):])
    h.check('rejected', v is None and d is None)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (20, 32):
        length = 1 + (n * 8 + 4) // 5 + 6
        for t in ([1, 2] if q else [1, 2, 3]):
            if t == 3 and n == 32:
                continue
            for first in range(length - t + 1):
                out.append(Case('detect_%d_t%d_%d' % (n, t, first), detect,
                                'v0 %d-byte programs, %d wrong characters, first at %d' % (n, t, first), n=n, t=t,
                                first=first, hrp='bc', weight=(length - first) ** (t - 1), witnesses=1))
    for a in ('bc', 'tb', 'bcrt'):
        for b in ('bc', 'tb', 'bcrt'):
            if a != b:
                out.append(Case('swap_%s_%s' % (a, b), swap_hrp, 'every version and 20-byte program', n=20, a=a, b=b))
    return out
