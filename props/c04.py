"""C04: an address maps to exactly its script template and network, anything else is refused."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = ['hashes are uninterpreted', 'a Base58Check text under test is not at the same time a checksum-valid Bech32 '
               'text (chance 2^-30 per single-case text)']
NETS = {0x00: 'main', 0x05: 'main', 0x6f: 'test', 0xc4: 'test'}


def base58_any(h, n, vers=None, free=None):
    """any version byte, n-byte payload, correct checksum"""
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version, address_to_public_key_hash
    from bit.base58 import b58encode_check
    from props import ref
    v = h.int('v', 0, 255) if vers is None else h.fork('v', vers)
    p = h.bytes('p', n) if free is None else bytes(range(0x51, 0x51 + n - free)) + h.bytes('p', free)
    data = bytes([v]) + p
    h.assume(data != b'\x00' * (n + 1))
    addr = b58encode_check(data)
    h.assume(addr.lower() != addr)
    h.assume(addr.upper() != addr)
    e, script = h.attempt(address_to_scriptpubkey, addr)
    known = h.any([v == 0, v == 5, v == 0x6f, v == 0xc4])
    if known and n == 20:
        h.check('accepted', e is None)
        want = ref.p2pkh(p) if h.any([v == 0, v == 0x6f]) else ref.p2sh(p)
        h.check_eq('script', script, want)
        h.check_eq('network', get_version(addr), 'main' if h.any([v == 0, v == 5]) else 'test')
        h.check_eq('hash', address_to_public_key_hash(addr), p)
        h.reach('accepted')
    else:
        h.check('refused with ValueError', isinstance(e, ValueError))
        e, _ = h.attempt(address_to_public_key_hash, addr)
        h.check('hash refused with ValueError', isinstance(e, ValueError))
        if not known:
            e, _ = h.attempt(get_version, addr)
            h.check('version refused with ValueError', isinstance(e, ValueError))
        h.reach('refused')


def base58_corrupt(h, n):
    """wrong checksum"""
    from bit.transaction import address_to_scriptpubkey
    from bit.base58 import b58encode
    from props import ref
    v = h.fork('v', [0, 5, 0x6f, 0xc4])
    p = h.bytes('p', n)
    c = h.bytes('c', 4)
    data = bytes([v]) + p
    h.assume(data != b'\x00' * (n + 1))
    h.assume(c != ref.dsha256(data)[:4])
    addr = b58encode(data + c)
    h.assume(addr.lower() != addr)
    h.assume(addr.upper() != addr)
    e, script = h.attempt(address_to_scriptpubkey, addr)
    h.check('refused with ValueError', isinstance(e, ValueError))


def not_base58(h, addr):
    """the text is not also a checksum-valid Base58Check text"""
    from bit.base58 import b58decode_check
    e, _ = h.attempt(b58decode_check, addr)
    h.assume(e is not None)


def segwit(h, n, hrp, vers=None, first=False, upper=False):
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version
    from props import ref
    ver = h.int('ver', 0, 31) if vers is None else h.fork('ver', vers)
    prog = h.bytes('prog', n, bits=True)
    five = ref.to5(prog)
    if first:
        h.assume(h.any([five[0] == 31, five[0] == 15]))
    addr = ref.bech32_text(hrp, [ver] + five)
    if upper:
        addr = addr.upper()
    not_base58(h, addr)
    e, script = h.attempt(address_to_scriptpubkey, addr)
    if h.all([ver <= 16, 2 <= n <= 40, h.any([ver > 0, n == 20, n == 32])]) and hrp in ('bc', 'tb', 'bcrt'):
        h.check('accepted', e is None)
        h.check_eq('script', script, ref.wscript(h.value(ver), prog))
        h.check_eq('network', get_version(addr), 'main' if hrp == 'bc' else 'test')
        h.reach('accepted')
    else:
        h.check('refused with ValueError', isinstance(e, ValueError))
        h.reach('refused')


def mixed(h, n, hrp, ver):
    """upper and lower case letters in one text"""
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version
    from props import ref
    prog = h.bytes('prog', n, bits=True)
    low = ref.bech32_text(hrp, [ver] + ref.to5(prog))
    k = len(hrp)
    how = h.fork('how', 5)
    text = [low[:k] + low[k:].upper(), low[:k].upper() + low[k:], low[:1].upper() + low[1:], low[:-4] + low[-4:].upper(), low[:1] + low[1:].upper()][how]
    h.assume(h.all([text.lower() != text, text.upper() != text]))
    not_base58(h, text)
    for f in (address_to_scriptpubkey, get_version):
        e, _ = h.attempt(f, text)
        h.check('refused with ValueError by ' + f.__name__, isinstance(e, ValueError))


def segwit_padding(h, n, hrp):
    """n symbols of data with correct checksum, any padding"""
    from bit.transaction import address_to_scriptpubkey
    from props import ref
    vals = [0] + [h.bits('d%d' % i, 5) for i in range(n)]
    addr = ref.bech32_text(hrp, vals)
    not_base58(h, addr)
    pad = (5 * n) % 8
    nbytes = (5 * n) // 8
    ok = pad < 5 and nbytes in (20, 32)
    if ok:
        ok = vals[-1] & ((1 << pad) - 1) == 0
    e, script = h.attempt(address_to_scriptpubkey, addr)
    if ok:
        acc = 0
        for x in vals[1:]:
            acc = acc * 32 + x
        h.check_eq('script', script, ref.wscript(0, (acc >> pad).to_bytes(nbytes, 'big')))
    else:
        h.check('refused with ValueError', isinstance(e, ValueError))


VALID = ['1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2', '3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy', 'mipcBbFg9gMiCh81Kj8tqqdgoZub1ZJRfn',
         '2MzQwSSnBHWHqSAqtTVQ6v47XtaisrJa1Vc', 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4', 'TB1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KXPJZSX']


def foreign(h, addr, how):
    """a valid address with one or two characters added or replaced that do not occur in its alphabet"""
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version, address_to_public_key_hash
    from props import ref
    e, _ = h.attempt(address_to_scriptpubkey, addr)
    h.check('the address itself is valid', e is None)
    seg = addr[:3].lower() in ('bc1', 'tb1')
    alpha = ref.B58 if not seg else ''.join(c for c in map(chr, range(33, 127)))
    c = h.str('c', 1)
    h.assume(c not in alpha)
    if how == 'both':
        d = h.str('d', 1)
        h.assume(d not in alpha)
        text = c + addr + d
    else:
        kind, pos = how
        if pos < 0:
            pos += len(addr) + (kind == 'insert')
        text = addr[:pos] + c + addr[pos + (kind == 'replace'):]
    for f in (address_to_scriptpubkey, get_version) + (() if seg else (address_to_public_key_hash,)):
        e, _ = h.attempt(f, text)
        h.check('refused with ValueError by ' + f.__name__, isinstance(e, ValueError))


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in ([20] if q else [20]):
        out.append(Case('base58_known_%d' % n, base58_any, 'the four address versions, every %d-byte payload' % n, n=n,
                        vers=[0, 5, 0x6f, 0xc4], weight=50, must=['accepted']))
        out.append(Case('base58_any_%d' % n, base58_any, 'every version byte, every %d-byte payload' % n, n=n,
                        weight=60, must=['accepted', 'refused']))
        out.append(Case('corrupt_%d' % n, base58_corrupt, 'every %d-byte payload, every wrong checksum' % n, n=n,
                        weight=40))
    for n in ([0, 1, 19, 21, 32] if q else [0, 1, 2, 5, 10, 18, 19, 21, 22, 24, 32, 33]):
        out.append(Case('base58_len_%d' % n, base58_any, 'the four versions, every %d-byte payload (wrong length)' % n,
                        n=n, vers=[0, 5, 0x6f, 0xc4] if n < 22 else [5, 0x6f, 0xc4], weight=n))
    for n in ([1, 2, 20, 31, 32, 40, 41] if q else range(1, 46)):
        for hrp in (('bc', 'tb', 'bcrt', 'ltc') if n in (20, 32) else ('bc',)):
            out.append(Case('segwit_%s_%d' % (hrp, n), segwit, 'versions 0..31, every %d-byte program that starts with a '
                            'character outside Base58' % n, n=n, hrp=hrp, first=True, weight=n))
    for n in ([20, 32] if q else [2, 20, 32, 40]):
        for hrp in (('bc', 'tb') if q else ('bc', 'tb', 'bcrt')):
            for v in ([0, 1] if q else [0, 1, 2, 3, 16, 17, 31]):
                out.append(Case('segwit_all_%s_%d_%d' % (hrp, n, v), segwit, 'version %d, every %d-byte program' % (v, n), n=n, hrp=hrp,
                            vers=[v], weight=n))
    out.append(Case('segwit_upper', segwit, 'upper-case text', n=20, hrp='tb', vers=[0, 1], upper=True))
    for n, hrp, ver in [(20, 'bc', 0), (20, 'tb', 1)]:
        out.append(Case('mixed_%s_%d' % (hrp, n), mixed, 'every %d-byte program, both cases in one text' % n, n=n, hrp=hrp, ver=ver, weight=30))
    for n in ([31, 32, 33, 51, 52, 53] if q else range(1, 70)):
        out.append(Case('padding_%d' % n, segwit_padding, '%d data symbols, any padding' % n, n=n, hrp='bc'))
    for i, a in enumerate(VALID):
        for how in ['both'] + [('insert', k) for k in ([0, 4, -1] if q else range(len(a) + 1))] + [('replace', k) for k in ([0, 9, -1] if q else range(len(a)))]:
            out.append(Case('foreign_%d_%s' % (i, how if how == 'both' else '%s_%d' % how), foreign, 'one valid address, any characters outside the alphabet '
                            'added or in place of one of its characters', addr=a, how=how))
    out.append(hist.case('base58', 'the same 20 bytes (19 fixed, one free) under two of the four versions',
                         [(base58_any, {'n': 20, 'vers': [0, 5, 0x6f, 0xc4], 'free': 1})] * 2,
                         share=('p',), reverse=False, weight=60))
    out.append(hist.case('segwit', 'the same 20-byte program on two networks', [(segwit, {'n': 20, 'hrp': x, 'vers': [0, 1], 'first': True})
                                                                                for x in ('bc', 'tb')], share=('prog',), weight=30))
    return out
