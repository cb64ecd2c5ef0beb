"""C07: multisig redeem scripts: exact m-of-n template within 520 bytes, everything else refused."""
from symbit.common import Case
from props import hist


def template(h, n, long):
    """first `long` keys are uncompressed"""
    from bit.format import multisig_to_redeemscript
    keys = [h.bytes('k%d' % i, 65 if i < long else 33) for i in range(n)]
    m = h.int('m', -5, 30)
    e, r = h.attempt(multisig_to_redeemscript, keys, m)
    size = 3 + n + 65 * long + 33 * (n - long)
    if h.all([m >= 1, m <= n]) and size <= 520:
        h.check('accepted', e is None)
        want = bytes([80 + h.value(m)])
        for k in keys:
            want = want + bytes([len(k)]) + k
        h.check_eq('script', r, want + bytes([80 + n]) + b'\xae')
        h.reach('accepted')
    else:
        h.check('refused', isinstance(e, ValueError))
        h.reach('refused')


def bad_length(h, n, pos, length):
    from bit.format import multisig_to_redeemscript, multisig_to_address, multisig_to_segwit_address
    keys = [h.bytes('k%d' % i, length if i == pos else 33) for i in range(n)]
    m = h.int('m', 1, n)
    for f in (multisig_to_redeemscript, multisig_to_address, multisig_to_segwit_address):
        e, r = h.attempt(f, keys, m)
        h.check('refused', isinstance(e, ValueError))


def own_key(h, net, n, ln):
    """a wallet is built exactly if its own key is, as a whole, one of the keys"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    key = kc.from_int(2 ** 200 + 13)
    pos = h.fork('pos', n if n < 5 else [0, n // 2, n - 1])
    other = h.bytes('other', ln)
    pubs = [kc.from_int(3 + i).public_key for i in range(n)]
    pubs[pos] = other
    form = h.fork('form', ['bytes', 'hex'])
    own = other == key.public_key
    e, w = h.attempt(mc, key, pubs if form == 'bytes' else [p.hex() for p in pubs], h.fork('m', list(range(1, n + 1)) if n < 5 else [1, n]))
    if own and n > 15:
        h.check('refused', isinstance(e, ValueError))
        h.reach('refused')
    elif own:
        h.check('accepted', e is None)
        h.check_eq('keys', w.public_keys, pubs)
        h.reach('accepted')
    else:
        h.check('refused', isinstance(e, ValueError))
        h.reach('refused')


def key_set(h, net, n):
    """keys given as a set, as bytes or hex, give the script of the sorted keys, whoever makes it"""
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    keys = [kc.from_int(100 + i) for i in range(n)]
    pubs = [k.public_key for k in keys]
    m = h.fork('m', list(range(1, n + 1)))
    who = h.fork('who', n)
    form = h.fork('form', ['bytes', 'hex'])
    w = mc(keys[who], set(pubs if form == 'bytes' else [p.hex() for p in pubs]), m)
    h.check_eq('keys', w.public_keys, sorted(pubs))
    h.check_eq('script', w.redeemscript, bytes([80 + m]) + b''.join(bytes([33]) + p for p in sorted(pubs)) + bytes([80 + n]) + b'\xae')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    ns = [0, 1, 2, 3, 5, 7, 8, 14, 15, 16, 17] if q else range(0, 22)
    for n in ns:
        longs = {0, 1, min(n, 7), n} if q else set(range(n + 1))
        for lg in sorted(x for x in longs if x <= n):
            must = ['refused'] + (['accepted'] if 3 + n + 65 * lg + 33 * (n - lg) <= 520 and n else [])
            out.append(Case('m_of_%d_%d' % (n, lg), template, 'm in -5..30, %d arbitrary keys, %d uncompressed' % (n, lg),
                            n=n, long=lg, must=must))
    for ln in ([0, 32, 34, 64, 66] if q else [0, 1, 20, 31, 32, 34, 48, 63, 64, 66, 76, 255, 256]):
        for pos in (0, 1, 2):
            out.append(Case('badlen_%d_%d' % (ln, pos), bad_length, 'a %d-byte key at position %d of 3' % (ln, pos), n=3,
                            pos=pos, length=ln))
    for n in ((1, 2, 3, 4, 6, 15) if q else list(range(1, 17))):
        for ln in (33, 65):
            for net in ('main', 'test'):
                out.append(Case('own_%s_%d_%d' % (net, n, ln), own_key, '%d keys of %d bytes, one of them arbitrary' % (n, ln), net=net, n=n, ln=ln,
                                must=['refused'] + (['accepted'] if ln == 33 else [])))
    for net in ('main', 'test'):
        for n in ((3, 5) if q else (1, 2, 3, 4, 5, 8, 15)):
            out.append(Case('set_%s_%d' % (net, n), key_set, '%d fixed keys as a set, any threshold and signer' % n, net=net, n=n, must=['done']))
    out.append(hist.case('template', 'the same three keys, any two thresholds', [(template, {'n': 3, 'long': 1})] * 2, share=['k0', 'k1', 'k2'],
                         reverse=False))
    return out
