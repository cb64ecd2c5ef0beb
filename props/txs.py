"""Symbolic transactions shared by the transaction harnesses."""


def sym_tx(h, shape, segwit, pre=''):
    """shape: (list of scriptSig bounds, list of scriptPubKey bounds, list of witness item bound lists)
    returns dict of fields and the wire serialisations"""
    from props import ref
    ins, outs, wits = shape
    t = {'version': h.bytes(pre + 'version', 4), 'locktime': h.bytes(pre + 'locktime', 4), 'ins': [], 'outs': [], 'wit': [],
         'vouts': []}
    for i, (lo, hi) in enumerate(ins):
        t['vouts'].append(h.int('%svout%d' % (pre, i), 0, 2 ** 32 - 1))
        t['ins'].append((h.bytes('%stxid%d' % (pre, i), 32), t['vouts'][i].to_bytes(4, 'little'),
                         h.blob('%ssig%d' % (pre, i), lo, hi), h.bytes('%sseq%d' % (pre, i), 4)))
    for i, (lo, hi) in enumerate(outs):
        t['outs'].append((h.bytes('%samount%d' % (pre, i), 8), h.blob('%sspk%d' % (pre, i), lo, hi)))
    for i, items in enumerate(wits):
        t['wit'].append([h.blob('%sw%d_%d' % (pre, i, j), lo, hi) for j, (lo, hi) in enumerate(items)])
    return t


def base_parts(t):
    from props import ref
    inp = ref.varint(len(t['ins']))
    for txid, vout, sig, seq in t['ins']:
        inp = inp + txid + vout + ref.varint(len(sig)) + sig + seq
    out = ref.varint(len(t['outs']))
    for amount, spk in t['outs']:
        out = out + amount + ref.varint(len(spk)) + spk
    return inp, out


def witness(items):
    from props import ref
    w = ref.varint(len(items))
    for x in items:
        w = w + ref.varint(len(x)) + x
    return w


def legacy(t):
    inp, out = base_parts(t)
    return t['version'] + inp + out + t['locktime']


def wire(t, segwit):
    if not segwit:
        return legacy(t)
    inp, out = base_parts(t)
    w = b''
    for items in t['wit']:
        w = w + witness(items)
    return t['version'] + b'\x00\x01' + inp + out + w + t['locktime']


S = (0, 120)       # ordinary script
L = (240, 300)     # around the one-byte varint limit
XL = (65500, 65600)
E0 = (0, 0)
P = (71, 73)
K = (33, 33)


def shapes(tier):
    out = [('1in1out', ([S], [S], []), False),
           ('2in2out', ([S, L], [S, L], []), False),
           ('1in3out', ([(1, 73)], [(0, 25), (22, 34), (80, 90)], []), False),
           ('xl', ([XL], [XL], []), False),
           ('0out', ([S], [], []), False),
           ('sw_p2wpkh', ([E0], [S], [[P, K]]), True),
           ('sw_mixed', ([S, (22, 23), S], [S, S], [[], [P, K], []]), True),
           ('sw_multi', ([(35, 35), S], [L], [[E0, P, P, (100, 110)], [(240, 300)]]), True),
           ('sw_empty', ([E0, E0, S], [S], [[E0], [E0, E0], []]), True),
           ('sw_xl', ([E0], [S], [[XL, E0]]), True),
           ('in252', ([E0] * 252, [(1, 1)], []), False),
           ('in253', ([E0] * 253, [(1, 1)], []), False),
           ('out252', ([E0], [(1, 1)] * 252, []), False),
           ('out253', ([E0], [(1, 1)] * 253, []), False),
           ('wit253', ([E0], [(1, 1)], [[(1, 1)] * 253]), True)]
    if tier == 'thorough':
        A = (0, 70000)
        out += [('t_any', ([A], [A], []), False), ('t_any2', ([A, A], [A, A], []), False),
                ('t_sw_any', ([A, S], [A], [[A, A], [A]]), True),
                ('t_sw_4in', ([S, L, E0, S], [S, S, L], [[P, K], [], [E0, P, P, L], [S]]), True),
                ('t_in300', ([E0] * 300, [(1, 1)] * 300, []), False),
                ('t_sw_in253', ([E0] * 253, [(1, 1)], [[(1, 1)]] * 253), True)]
    return out


# ---------------------------------------------------------------- independent parsing and signature hashes
def read_varint(b):
    n = b[0]
    if n < 253:
        return n, b[1:]
    if n == 253:
        return int.from_bytes(b[1:3], 'little'), b[3:]
    if n == 254:
        return int.from_bytes(b[1:5], 'little'), b[5:]
    return int.from_bytes(b[1:9], 'little'), b[9:]


def parse(h, raw):
    """wire bytes -> dict like sym_tx; the counts of inputs, outputs and witness items must be concrete"""
    t = {'version': raw[:4], 'ins': [], 'outs': [], 'wit': []}
    b = raw[4:]
    seg = False
    if b[:2] == b'\x00\x01':
        seg = True
        b = b[2:]
    n, b = read_varint(b)
    for _ in range(h.value(n)):
        txid, vout, b = b[:32], b[32:36], b[36:]
        ln, b = read_varint(b)
        sig, b = b[:ln], b[ln:]
        t['ins'].append((txid, vout, sig, b[:4]))
        b = b[4:]
    m, b = read_varint(b)
    for _ in range(h.value(m)):
        amount, b = b[:8], b[8:]
        ln, b = read_varint(b)
        t['outs'].append((amount, b[:ln]))
        b = b[ln:]
    if seg:
        for _ in t['ins']:
            k, b = read_varint(b)
            items = []
            for _ in range(h.value(k)):
                ln, b = read_varint(b)
                items.append(b[:ln])
                b = b[ln:]
            t['wit'].append(items)
    else:
        t['wit'] = [[] for _ in t['ins']]
    t['locktime'] = b
    t['segwit'] = seg
    return t


def pushes(script):
    """items of a push-only script (direct pushes, OP_PUSHDATA1/2 and OP_0)"""
    out = []
    while len(script) > 0:
        op = script[0]
        if op <= 75:
            ln, script = op, script[1:]
        elif op == 0x4c:
            ln, script = script[1], script[2:]
        elif op == 0x4d:
            ln, script = int.from_bytes(script[1:3], 'little'), script[3:]
        else:
            return None
        out.append(script[:ln])
        script = script[ln:]
    return out


def legacy_digest(t, i, code):
    """single SHA-256 of the SIGHASH_ALL preimage (the signer applies the second one)"""
    from props import ref
    pre = t['version'] + ref.varint(len(t['ins']))
    for j, (txid, vout, _, seq) in enumerate(t['ins']):
        s = code if j == i else b''
        pre = pre + txid + vout + ref.varint(len(s)) + s + seq
    pre = pre + ref.varint(len(t['outs']))
    for amount, spk in t['outs']:
        pre = pre + amount + ref.varint(len(spk)) + spk
    return ref.sha256(pre + t['locktime'] + b'\x01\x00\x00\x00')


def bip143_digest(t, i, code, amount):
    from props import ref
    prev = b''
    seqs = b''
    for txid, vout, _, seq in t['ins']:
        prev = prev + txid + vout
        seqs = seqs + seq
    outs = b''
    for a, spk in t['outs']:
        outs = outs + a + ref.varint(len(spk)) + spk
    txid, vout, _, seq = t['ins'][i]
    pre = (t['version'] + ref.dsha256(prev) + ref.dsha256(seqs) + txid + vout + ref.varint(len(code)) + code
           + amount.to_bytes(8, 'little') + seq + ref.dsha256(outs) + t['locktime'] + b'\x01\x00\x00\x00')
    return ref.sha256(pre)


DEST = {'main': ['1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2', '3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy',
                 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4'],
        'test': ['mipcBbFg9gMiCh81Kj8tqqdgoZub1ZJRfn', '2MzQwSSnBHWHqSAqtTVQ6v47XtaisrJa1Vc',
                 'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7']}


def unspent(h, i, script, typ, amount=None, seq=True):
    """an arbitrary UTXO of the given script"""
    from bit.network.meta import Unspent
    a = h.int('u%d.amount' % i, 1, 21 * 10 ** 14) if amount is None else amount
    txid = h.bytes('u%d.txid' % i, 32)
    kw = {'sequence': h.int('u%d.seq' % i, 0, 2 ** 32 - 1)} if seq else {}
    return Unspent(a, h.int('u%d.conf' % i, 0, 10 ** 6), script.hex(), txid.hex(), h.int('u%d.vout' % i, 0, 2 ** 32 - 1),
                   type=typ, **kw)


def distinct(h, us):
    for i in range(len(us)):
        for j in range(i):
            h.assume(h.any([us[i].txid != us[j].txid, us[i].txindex != us[j].txindex]))
