"""C25: every export of a private key restores the same key, and its public point and addresses belong to it."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = ['the curve point of a secret is an uninterpreted function (libsecp256k1 is outside); replays use the real curve',
               'modular square roots are uninterpreted: decided is the parity and the coordinate bookkeeping around them',
               'the DER and PEM texts themselves are made by coincurve: C26']


def classes(net):
    from bit.wallet import PrivateKey, PrivateKeyTestnet
    return PrivateKey if net == 'main' else PrivateKeyTestnet


def imported(h, cls, how, n, net):
    from props import ref
    sec = n.to_bytes(32, 'big')
    if how == 'int':
        return cls.from_int(n)
    if how == 'hex':
        return cls.from_hex(sec.hex())
    if how == 'bytes':
        return cls.from_bytes(sec)
    raw = (b'\x80' if net == 'main' else b'\xef') + sec
    return cls(ref.b58check(raw + (b'\x01' if how == 'wif' else b'')))


def verify(h, k, n, compressed, net, ideal):
    from props import ref
    sec = n.to_bytes(32, 'big')
    h.check_eq('int', k.to_int(), n)
    h.check_eq('bytes', k.to_bytes(), sec)
    h.check_eq('hex', k.to_hex(), sec.hex())
    raw = (b'\x80' if net == 'main' else b'\xef') + sec + (b'\x01' if compressed else b'')
    h.check_eq('wif', k.to_wif(), ref.b58check(raw))
    pub = ideal(sec).public_key.format(compressed=compressed)
    h.check_eq('public key', k.public_key, pub)
    h.check_eq('public key hex', k.pub_to_hex(), pub.hex())
    h.check('compression', k.is_compressed() == compressed)
    pkh = ref.hash160(pub)
    vp, vs = (b'\x00', b'\x05') if net == 'main' else (b'\x6f', b'\xc4')
    h.check_eq('address', k.address, ref.b58check(vp + pkh))
    if compressed:
        h.check_eq('segwit address', k.segwit_address, ref.b58check(vs + ref.hash160(b'\x00\x14' + pkh)))
    else:
        h.check('no segwit address', k.segwit_address is None)
    h.check_eq('network', k.version, net)
    h.check_eq('shown is the address, not the secret', repr(k), '<%s: %s>' % ('PrivateKey' if net == 'main' else 'PrivateKeyTestnet', k.address))


def trip(h, net, how, wide):
    """import, then export and import again in every form"""
    from props import ideal as I, ref
    ideal = I.install(h)
    cls = classes(net)
    n = h.int('n', 1, ref.N - 1) if wide else h.int('n', 1, 2 ** 128)
    compressed = how != 'wif-uncompressed'
    k = imported(h, cls, how, n, net)
    h.check('class', type(k) is cls)
    verify(h, k, n, compressed, net, ideal)
    for j, (f, x) in enumerate(((cls.from_int, k.to_int()), (cls.from_hex, k.to_hex()), (cls.from_bytes, k.to_bytes()))):
        k2 = f(x)
        h.check_eq('same number', k2.to_int(), n)
        h.check('equal', k2 == k)
        h.check('new keys are compressed', k2.is_compressed())
        h.check('class', type(k2) is cls)


def text(h, net, compressed):
    """WIF text and back, also by wif_to_key"""
    from props import ideal as I, ref
    from bit.wallet import wif_to_key
    ideal = I.install(h)
    cls = classes(net)
    n = h.int('n', 1, ref.N - 1)
    k = imported(h, cls, 'wif' if compressed else 'wif-uncompressed', n, net)
    wif = k.to_wif()
    for k2 in (cls(wif), wif_to_key(wif)):
        h.check('class', type(k2) is cls)
        h.check_eq('number', k2.to_int(), n)
        h.check_eq('public key', k2.public_key, k.public_key)
        h.check_eq('network', k2.version, net)
        h.check('equal', k2 == k)


def invalid(h, net, how):
    """secrets outside the group are refused"""
    from props import ideal as I, ref
    I.install(h)
    n = h.int('n', 0, 2 ** 256 - 1)
    h.assume(h.any([n == 0, n >= ref.N]))
    e, k = h.attempt(imported, h, classes(net), how, n, net)
    h.check('refused', isinstance(e, ValueError))


def compare(h, net):
    from props import ideal as I, ref
    I.install(h)
    cls = classes(net)
    a, b = h.int('a', 1, ref.N - 1), h.int('b', 1, ref.N - 1)
    h.check('equal exactly if the secrets are', (cls.from_int(a) == cls.from_int(b)) == (a == b))


def fresh(h, net):
    """new keys are compressed and complete"""
    from props import ideal as I
    ideal = I.install(h)
    k = classes(net)()
    n = k.to_int()
    verify(h, k, n, True, net, ideal)


def point(h, net, compressed):
    """the public point is the point of the public key"""
    from props import ideal as I, ref
    from bit.format import point_to_public_key
    ideal = I.install(h)
    n = h.int('n', 1, ref.N - 1)
    k = imported(h, classes(net), 'wif' if compressed else 'wif-uncompressed', n, net)
    p = k.public_point
    x, y = ideal(n.to_bytes(32, 'big')).public_key.point()
    h.check_eq('x', p.x, x)
    h.check_eq('parity', p.y & 1, y & 1)
    if not compressed:
        h.check_eq('y', p.y, y)
    h.check_eq('back', point_to_public_key(p, compressed), k.public_key)
    h.check_eq('cached', k.public_point, p)


def coords(h, n):
    """any public key bytes: coordinates and back"""
    from bit.format import public_key_to_coords, coords_to_public_key
    body = h.bytes('body', n - 1)
    pub = (bytes([2 + h.fork('odd', 2)]) if n == 33 else b'\x04') + body
    x, y = public_key_to_coords(pub)
    h.check_eq('x', x, int.from_bytes(body[:32], 'big'))
    if n == 65:
        h.check_eq('y', y, int.from_bytes(body[32:], 'big'))
        h.check_eq('compressed', coords_to_public_key(x, y), bytes([2 + (body[63] & 1)]) + body[:32])
    h.check_eq('back', coords_to_public_key(x, y, compressed=n == 33), pub)


def lengths(h, n):
    from bit.format import public_key_to_coords
    e, r = h.attempt(public_key_to_coords, h.bytes('pub', n))
    h.check('refused', isinstance(e, ValueError))


def root(h):
    """y is one of the two roots the exponentiation yields, with the requested parity"""
    from bit.curve import x_to_y
    from props import ref
    x = h.int('x', 0, ref.P - 1)
    par = h.fork('parity', 2)
    y = x_to_y(x, par)
    r = pow(x ** 3 + 7, (ref.P + 1) // 4, ref.P)
    h.check('a root', h.any([y == r, y == ref.P - r]))
    h.check_eq('parity', y & 1, par)


def cases(tier):
    out = [Case('root', root, 'every x')]
    for net in ('main', 'test'):
        for how in ('int', 'hex', 'bytes', 'wif', 'wif-uncompressed'):
            out.append(Case('trip_%s_%s' % (net, how), trip, 'every secret', net=net, how=how, wide=True))
            out.append(Case('invalid_%s_%s' % (net, how), invalid, 'every number outside the group', net=net, how=how))
        for c in (True, False):
            out.append(Case('text_%s_%d' % (net, c), text, 'every secret', net=net, compressed=c))
            out.append(Case('point_%s_%d' % (net, c), point, 'every secret', net=net, compressed=c))
        out.append(Case('compare_' + net, compare, 'every two secrets', net=net))
        out.append(Case('fresh_' + net, fresh, 'every generated secret', net=net))
    for n in (33, 65):
        out.append(Case('coords_%d' % n, coords, 'every key', n=n))
    for n in (0, 1, 32, 34, 64, 66):
        out.append(Case('lengths_%d' % n, lengths, 'every key of %d bytes' % n, n=n))
    for a, b in (('int', 'wif-uncompressed'), ('wif', 'wif'), ('hex', 'bytes')):
        for na, nb in (('main', 'test'), ('test', 'test')):
            out.append(hist.case('%s_%s_%s_%s' % (na, a, nb, b), 'the same secret imported twice, the network or form differs', [
                (trip, {'net': na, 'how': a, 'wide': True}), (trip, {'net': nb, 'how': b, 'wide': True})]))
    for share in (('*',), ()):
        out.append(hist.case('points_%d' % len(share), 'public points of two keys' if not share else 'public point of both forms of a key', [
            (point, {'net': 'main', 'compressed': True}), (point, {'net': 'test', 'compressed': False})], share=share))
    return out
