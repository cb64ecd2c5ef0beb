"""C05: WIF encodes secret, network and compression flag losslessly; anything else is refused."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = ['SHA-256 is uninterpreted', 'the secret is 32 bytes (what every key object exports)']
VER = {'main': 0x80, 'test': 0xef}


def roundtrip(h, version, compressed):
    from bit.format import bytes_to_wif, wif_to_bytes, wif_checksum_check
    from props import ref
    secret = h.bytes('secret', 32)
    wif = bytes_to_wif(secret, version=version, compressed=compressed)
    raw = bytes([VER[version]]) + secret + (b'\x01' if compressed else b'')
    h.check_eq('text', wif, ref.b58check(raw))
    h.check_eq('decoded', wif_to_bytes(wif), (secret, compressed, version))
    h.check('checksum accepted', wif_checksum_check(wif) is True)
    h.reach('ok')


def any_kind(h):
    roundtrip(h, h.fork('net', ['main', 'test']), h.fork('compressed', [True, False]))


def wrong_version(h, n):
    from bit.format import wif_to_bytes, wif_checksum_check
    from props import ref
    v = h.int('v', 1, 255)
    h.assume(h.all([v != 0x80, v != 0xef]))
    body = h.bytes('body', n)
    wif = ref.b58check(bytes([v]) + body)
    e, _ = h.attempt(wif_to_bytes, wif)
    h.check('refused', isinstance(e, ValueError))
    h.check('checksum check false', wif_checksum_check(wif) is False)


def wrong_checksum(h, n, v):
    from bit.format import wif_to_bytes, wif_checksum_check
    from props import ref
    body = h.bytes('body', n)
    c = h.bytes('c', 4)
    h.assume(c != ref.dsha256(bytes([v]) + body)[:4])
    wif = ref.b58(bytes([v]) + body + c)
    e, _ = h.attempt(wif_to_bytes, wif)
    h.check('refused', isinstance(e, ValueError))
    h.check('checksum check false', wif_checksum_check(wif) is False)


def bad_char(h, pos):
    from bit.format import wif_to_bytes, wif_checksum_check
    from props import ref
    bad = h.str('c', 1)
    h.assume(bad not in ref.B58)
    a = h.str('a', pos, alphabet=ref.B58)
    b = h.str('b', 51 - pos, alphabet=ref.B58)
    e, _ = h.attempt(wif_to_bytes, a + bad + b)
    h.check('refused', isinstance(e, ValueError))
    h.check('checksum check false', wif_checksum_check(a + bad + b) is False)


def foreign(h, net, compressed, how):
    """a valid WIF with a foreign character added or in place of another"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet, wif_to_key
    from bit.format import wif_to_bytes, wif_checksum_check, bytes_to_wif
    from props import ref
    wif = bytes_to_wif(bytes(range(7, 39)), version=net, compressed=compressed)
    c = h.str('c', 1)
    h.assume(c not in ref.B58)
    if how == 'both':
        d = h.str('d', 1)
        h.assume(d not in ref.B58)
        text = c + wif + d
    else:
        kind, pos = how
        if pos < 0:
            pos += len(wif) + (kind == 'insert')
        text = wif[:pos] + c + wif[pos + (kind == 'replace'):]
    for f in (wif_to_bytes, wif_to_key, PrivateKey, PrivateKeyTestnet):
        e, _ = h.attempt(f, text)
        h.check('refused by ' + f.__name__, isinstance(e, ValueError))
    h.check('checksum check false', wif_checksum_check(text) is False)


def key_object(h, net, compressed):
    """a key loaded from WIF exports the same WIF, secret, number and the matching public key"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet, wif_to_key
    from bit.format import bytes_to_wif
    from props import ref
    k = h.fork('k', [1, 2, 3, 2 ** 200 + 7, ref.N - 1, ref.N // 2])
    cls = PrivateKey if net == 'main' else PrivateKeyTestnet
    wif = bytes_to_wif(k.to_bytes(32, 'big'), version=net, compressed=compressed)
    key = cls(wif)
    h.check_eq('int', key.to_int(), k)
    h.check_eq('wif', key.to_wif(), wif)
    h.check_eq('pub length', len(key.public_key), 33 if compressed else 65)
    other = wif_to_key(wif)
    h.check('class', type(other) is cls)
    h.check_eq('same key', other.to_wif(), wif)


def cases(tier):
    q = tier == 'quick'
    out = []
    for v in ('main', 'test'):
        for c in (True, False):
            out.append(Case('roundtrip_%s_%s' % (v, c), roundtrip, 'every 32-byte secret', version=v, compressed=c,
                            must=['ok'], weight=30))
            out.append(Case('key_%s_%s' % (v, c), key_object, 'six secrets spread over the group order', net=v,
                            compressed=c))
    for n in ([32, 33] if q else [20, 31, 32, 33, 34, 64]):
        out.append(Case('version_%d' % n, wrong_version, 'every version byte but 0x00/0x80/0xef, every %d-byte body' % n, n=n))
        for v in (0x80, 0xef):
            out.append(Case('checksum_%d_%02x' % (n, v), wrong_checksum, 'every %d-byte body, every wrong checksum' % n,
                            n=n, v=v))
    for v in ('main', 'test'):
        for c in (True, False):
            for how in ['both'] + [(k, p) for k in ('insert', 'replace') for p in ([0, 20, -1] if q else range(51))]:
                out.append(Case('foreign_%s_%s_%s' % (v, c, how if how == 'both' else '%s_%d' % how), foreign, 'one secret, any character outside the alphabet '
                                'added or in place of one', net=v, compressed=c, how=how))
    for pos in ([0, 26, 51] if q else range(52)):
        out.append(Case('bad_char_%d' % pos, bad_char, '52 characters, any code point outside Base58 at %d' % pos, pos=pos))
    out.append(hist.case('roundtrip', 'the same secret with two of the four kinds of WIF', [(any_kind, {})] * 2, share=('secret',), reverse=False,
                         weight=20))
    return out
