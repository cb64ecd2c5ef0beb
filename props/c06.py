"""C06: public keys map to exactly the standard addresses; keys of any other length are refused."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = ['hashes are uninterpreted functions', 'key material enters the address functions as bytes']


def p2pkh(h, n, version):
    from bit.format import public_key_to_address
    from props import ref
    pub = h.bytes('pub', n)
    e, a = h.attempt(public_key_to_address, pub, version)
    if n in (33, 65):
        h.check('accepted', e is None)
        h.check_eq('address', a, ref.b58check((b'\x6f' if version == 'test' else b'\x00') + ref.hash160(pub)))
    else:
        h.check('refused', isinstance(e, ValueError))


def nested(h, n, version):
    from bit.format import public_key_to_segwit_address
    from props import ref
    pub = h.bytes('pub', n)
    e, a = h.attempt(public_key_to_segwit_address, pub, version)
    if n == 33:
        h.check('accepted', e is None)
        script = b'\x00\x14' + ref.hash160(pub)
        h.check_eq('address', a, ref.b58check((b'\xc4' if version == 'test' else b'\x05') + ref.hash160(script)))
    else:
        h.check('refused', isinstance(e, ValueError))


def multisig(h, n, version):
    from bit.format import multisig_to_address, multisig_to_segwit_address
    from props import ref
    keys = [h.bytes('k%d' % i, 33) for i in range(n)]
    m = h.fork('m', list(range(1, n + 1)))
    redeem = bytes([80 + m])
    for k in keys:
        redeem = redeem + b'\x21' + k
    redeem = redeem + bytes([80 + n]) + b'\xae'
    pre = b'\xc4' if version == 'test' else b'\x05'
    h.check_eq('p2sh', multisig_to_address(keys, m, version), ref.b58check(pre + ref.hash160(redeem)))
    h.check_eq('p2sh-p2wsh', multisig_to_segwit_address(keys, m, version),
               ref.b58check(pre + ref.hash160(b'\x00\x20' + ref.sha256(redeem))))


def any_single(h):
    f = h.fork('kind', [p2pkh, nested])
    f(h, 33, h.fork('version', ['main', 'test']))


def any_multisig(h, n):
    multisig(h, n, h.fork('version', ['main', 'test']))


KEYS = [1, 2, 0x1234567890abcdef, 2 ** 255 - 19]


def objects(h, net, compressed):
    """the key objects expose the same addresses, scripts and public keys"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet
    from bit.format import bytes_to_wif, public_key_to_coords
    from props import ref
    k = h.fork('k', KEYS)
    cls = PrivateKey if net == 'main' else PrivateKeyTestnet
    key = cls(bytes_to_wif(k.to_bytes(32, 'big'), version=net, compressed=compressed))
    pub = key.public_key
    h.check_eq('address', key.address, ref.b58check((b'\x00' if net == 'main' else b'\x6f') + ref.hash160(pub)))
    h.check_eq('script', key.scriptcode, ref.p2pkh(ref.hash160(pub)))
    if compressed:
        sc = b'\x00\x14' + ref.hash160(pub)
        h.check_eq('segwit', key.segwit_address, ref.b58check((b'\x05' if net == 'main' else b'\xc4') + ref.hash160(sc)))
        h.check_eq('segwit script', key.segwit_scriptcode, sc)
    else:
        h.check_eq('no segwit', key.segwit_address, None)
    for script in [ref.p2pkh(ref.hash160(pub))] + ([ref.p2sh(ref.hash160(b'\x00\x14' + ref.hash160(pub)))] if compressed else []):
        h.check('can sign', h.eq(key.can_sign_unspent(U(script.hex())), True))
    other = h.bytes('other', 20)
    h.assume(other != ref.hash160(pub))
    h.assume(other != ref.hash160(b'\x00\x14' + ref.hash160(pub)))
    h.check('cannot sign p2pkh', not key.can_sign_unspent(U(ref.p2pkh(other).hex())))
    h.check('cannot sign p2sh', not key.can_sign_unspent(U(ref.p2sh(other).hex())))


def multisig_objects(h, net, n):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    from props import ref
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    keys = [kc.from_int(3 + i) for i in range(n)]
    own = h.fork('own', n)
    m = h.fork('m', list(range(1, n + 1)))
    form = h.fork('form', ['hexlist', 'byteslist', 'set'])
    pubs = [k.public_key for k in keys]
    if form == 'hexlist':
        arg = [p.hex() for p in pubs]
    elif form == 'byteslist':
        arg = list(pubs)
    else:
        arg = set(p.hex() for p in pubs)
        pubs = sorted(pubs)
    ms = mc(keys[own], arg, m)
    redeem = bytes([80 + m])
    for p in pubs:
        redeem = redeem + bytes([len(p)]) + p
    redeem = redeem + bytes([80 + n]) + b'\xae'
    pre = b'\xc4' if net == 'test' else b'\x05'
    h.check_eq('address', ms.address, ref.b58check(pre + ref.hash160(redeem)))
    h.check_eq('segwit', ms.segwit_address, ref.b58check(pre + ref.hash160(b'\x00\x20' + ref.sha256(redeem))))
    h.check_eq('redeem', ms.redeemscript, redeem)
    h.check_eq('own key', ms.public_key, keys[own].public_key)
    e, _ = h.attempt(mc, kc.from_int(99), arg, m)
    h.check('foreign key refused', isinstance(e, ValueError))


class U:
    def __init__(self, script):
        self.script = script


def cases(tier):
    q = tier == 'quick'
    out = []
    for v in ('main', 'test'):
        for n in ([0, 1, 32, 33, 34, 64, 65, 66] if q else list(range(0, 70)) + [128, 130]):
            out.append(Case('p2pkh_%s_%d' % (v, n), p2pkh, 'every %d-byte public key' % n, n=n, version=v))
            out.append(Case('nested_%s_%d' % (v, n), nested, 'every %d-byte public key' % n, n=n, version=v))
        for n in ([1, 3, 15] if q else range(1, 16)):
            out.append(Case('multisig_%s_%d' % (v, n), multisig, '%d arbitrary 33-byte keys, every m' % n, n=n, version=v))
        for n in ([2, 3] if q else [1, 2, 3, 4, 5]):
            out.append(Case('msobj_%s_%d' % (v, n), multisig_objects, '%d-key wallets, every m, own key and argument form' % n,
                            net=v, n=n))
        for c in (True, False):
            out.append(Case('obj_%s_%s' % (v, c), objects, 'four secrets; any other 20-byte script hash', net=v, compressed=c))
    out.append(hist.case('single', 'the same key, any two of the address kinds and networks', [(any_single, {})] * 2, share=('pub',), reverse=False))
    for n in (2, 3):
        out.append(hist.case('multisig_%d' % n, 'the same keys, any two thresholds and networks', [(any_multisig, {'n': n})] * 2,
                             share=['k%d' % i for i in range(n)], reverse=False))
    return out
