"""C31: a signature verifies for the key and the data it was made with, and for nothing else."""
from symbit.common import Case
from props import hist

ASSUMPTIONS = ['ECDSA is ideal: a signature is an opaque string of 68 to 72 bytes per key and message, valid for exactly these; replays use the real one',
               'keys are the secrets 1, 4711, 2^200+7 and N-1, in any pair']
SECRETS = [1, 4711, 2 ** 200 + 7, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140]


def make(kind, secret):
    return hist.shared((kind, secret), lambda: new_wallet(kind, secret))


def new_wallet(kind, secret):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet, wif_to_key
    from props import ref
    if kind in ('main', 'test'):
        return (PrivateKey if kind == 'main' else PrivateKeyTestnet).from_int(secret)
    if kind in ('umain', 'utest'):
        return wif_to_key(ref.b58check((b'\x80' if kind == 'umain' else b'\xef') + secret.to_bytes(32, 'big')))
    kc, mc = (PrivateKey, MultiSig) if kind == 'multi' else (PrivateKeyTestnet, MultiSigTestnet)
    k = kc.from_int(secret)
    return mc(k, [k.public_key, kc.from_int(815).public_key], 2)


def holder(kind, secret):
    """a key that verifies: the signing key itself, or that of the multisig wallet"""
    return make(kind if kind[:5] != 'multi' else 'main' if kind == 'multi' else 'test', secret)


def text(h, name, lo, hi):
    return h.bytes(name, lo) if lo == hi else h.blob(name, lo, hi)


def own(h, kind, lo, hi):
    """own signature, over the signed data or other data"""
    from bit.format import verify_sig
    secret = SECRETS[h.fork('key', len(SECRETS))]
    k = make(kind, secret)
    data = text(h, 'data', lo, hi)
    sig = k.sign(data)
    v = holder(kind, secret)
    h.check('valid', v.verify(sig, data) is True)
    h.check('valid for anyone who has the public key', verify_sig(sig, data, v.public_key) is True)
    other = text(h, 'other', lo, hi)
    same = h.eq(data, other)
    h.check('for no other data', h.eq(v.verify(sig, other), same))
    h.check('for no other data, by public key', h.eq(verify_sig(sig, other, v.public_key), same))
    h.check_eq('signing again', k.sign(data), sig)
    h.check('the next signature is for its data', v.verify(k.sign(other), other) is True)
    h.check('and not for the last', h.eq(v.verify(k.sign(other), data), same))
    h.reach('own')


def forms(h, kind, lo, hi):
    """the signature does not depend on the network or on how the public key is written"""
    from bit.format import verify_sig
    secret = SECRETS[h.fork('key', len(SECRETS))]
    data = text(h, 'data', lo, hi)
    sig = make(kind, secret).sign(data)
    for k2 in ('main', 'test', 'umain', 'utest'):
        v = make(k2, secret)
        h.check('valid under ' + k2, v.verify(sig, data) is True)
        h.check('valid under public key of ' + k2, verify_sig(sig, data, v.public_key) is True)
        h.check_eq('same signature by ' + k2, v.sign(data), sig)


def foreign(h, kind, lo, hi):
    """another key's signature is not valid, for any data"""
    from bit.format import verify_sig
    a, b = h.fork('a', len(SECRETS)), h.fork('b', len(SECRETS))
    if a == b:
        return
    data = text(h, 'data', lo, hi)
    mine = make(kind, SECRETS[a])
    theirs = holder(kind, SECRETS[b])
    sig = mine.sign(data)
    for d in (data, text(h, 'other', lo, hi)):
        h.check('not theirs', theirs.verify(sig, d) is False)
        h.check('not theirs, by public key', verify_sig(sig, d, theirs.public_key) is False)
    h.reach('foreign')


def cases(tier):
    q = tier == 'quick'
    out = []
    for kind in ('main', 'test', 'umain', 'utest', 'multi', 'multitest'):
        for lo, hi in [(0, 0), (1, 64), (33, 33), (80, 80), (200, 70000)] if q else [(0, 0), (1, 3), (1, 64), (32, 32), (33, 33), (80, 80), (200, 200), (60, 300), (200, 70000), (10 ** 5, 10 ** 7)]:
            d = 'any data of %d to %d bytes, any of the keys' % (lo, hi)
            out.append(Case('own_%s_%d_%d' % (kind, lo, hi), own, d, kind=kind, lo=lo, hi=hi, must=['own']))
            out.append(Case('forms_%s_%d_%d' % (kind, lo, hi), forms, d, kind=kind, lo=lo, hi=hi))
            out.append(Case('foreign_%s_%d_%d' % (kind, lo, hi), foreign, d, kind=kind, lo=lo, hi=hi, must=['foreign']))
        out.append(hist.case('own_' + kind, 'two signatures in a row, of the same or other data', [(own, {'kind': kind, 'lo': 1, 'hi': 300})] * 2,
                             share=('data',), reverse=False))
        out.append(hist.case('wide_' + kind, 'two signatures in a row, of any data', [(own, {'kind': kind, 'lo': 40, 'hi': 40})] * 2, share=(), reverse=False))
    out.append(hist.case('nets', 'signatures by keys of both networks', [(own, {'kind': k, 'lo': 1, 'hi': 100}) for k in ('main', 'utest')], share=('other',)))
    return out
