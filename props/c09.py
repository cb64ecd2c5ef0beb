"""C09: decoding then encoding any valid serialised transaction gives the same bytes; every field is kept."""
from symbit.common import Case
from props import hist
from props import txs

ASSUMPTIONS = ['well-formed transactions (BIP144 wire format, canonical CompactSize), at least one input']


def roundtrip(h, shape, segwit, as_hex):
    from bit.transaction import deserialize, TxObj
    from bit.utils import bytes_to_hex
    t = txs.sym_tx(h, shape, segwit)
    raw = txs.wire(t, segwit)
    tx = deserialize(raw.hex().upper() if as_hex == 'upper' else raw.hex() if as_hex else raw)
    h.check_eq('same bytes', bytes(tx), raw)
    h.check_eq('to_hex', tx.to_hex(), raw.hex())
    h.check_eq('legacy form', tx.legacy_repr(), txs.legacy(t))
    h.check_eq('version', tx.version, t['version'])
    h.check_eq('locktime', tx.locktime, t['locktime'])
    h.check_eq('inputs', [(i.txid, i.txindex, i.script_sig, i.sequence) for i in tx.TxIn], t['ins'])
    h.check_eq('outputs', [(o.amount, o.script_pubkey) for o in tx.TxOut], t['outs'])
    if segwit:
        h.check_eq('witness', [i.witness for i in tx.TxIn], [txs.witness(w) for w in t['wit']])
    else:
        h.check('no witness', h.all([len(i.witness) == 0 for i in tx.TxIn]))
    h.check('segwit flag', h.eq(TxObj.is_segwit(raw), segwit))
    h.check('segwit flag hex', h.eq(TxObj.is_segwit(raw.hex()), segwit))
    h.check('segwit flag obj', h.eq(TxObj.is_segwit(tx), segwit))


def construct(h, shape, segwit):
    """objects built by hand serialise to the wire format"""
    from bit.transaction import TxObj, TxIn, TxOut
    t = txs.sym_tx(h, shape, segwit)
    ins = [TxIn(sig, txid, vout, sequence=seq) for txid, vout, sig, seq in t['ins']]
    if segwit:
        for i, items in zip(ins, t['wit']):
            i.witness = txs.witness(items) if items else h.fork('empty', [b'', b'\x00'])
    outs = [TxOut(a, s) for a, s in t['outs']]
    tx = TxObj(t['version'], ins, outs, t['locktime'])
    h.check_eq('bytes', bytes(tx), txs.wire(t, segwit))
    late = TxObj(t['version'], [TxIn(sig, txid, vout, sequence=seq) for txid, vout, sig, seq in t['ins']],
                 [TxOut(a, s) for a, s in t['outs']], t['locktime'])
    if segwit:
        for i, items in zip(late.TxIn, t['wit']):
            if items:
                i.witness = txs.witness(items)
    h.check_eq('bytes, witness added later', bytes(late), txs.wire(t, segwit))


def reread(h, shape, as_hex):
    """changing a deserialised transaction does not show in another deserialisation of the same bytes"""
    from bit.transaction import deserialize
    t = txs.sym_tx(h, shape, True)
    raw = txs.wire(t, True)
    arg = raw.hex() if as_hex else raw
    tx = deserialize(arg)
    tx.TxIn[0].script_sig, tx.TxIn[1].witness, tx.version = b'abc', b'\x01\x01a', b'zzzz'
    tx.TxOut[0].amount = bytes(8)
    tx.TxOut.append(tx.TxOut[0])
    h.check_eq('same bytes', bytes(deserialize(arg)), raw)


def equality(h, shape, what):
    """deserialised objects are equal exactly if every field is equal"""
    from bit.transaction import deserialize, TxIn, TxOut
    t = txs.sym_tx(h, shape, True)
    a, b = deserialize(txs.wire(t, True)), deserialize(txs.wire(t, True))
    h.check('equal', h.all([a == b, h.all([x == y for x, y in zip(a.TxIn, b.TxIn)]), h.all([x == y for x, y in zip(a.TxOut, b.TxOut)])]))
    for obj, name, n in {'in': [('TxIn', 'script_sig', None), ('TxIn', 'txid', 32), ('TxIn', 'txindex', 4), ('TxIn', 'sequence', 4), ('TxIn', 'witness', None)],
                         'out': [('TxOut', 'amount', 8), ('TxOut', 'script_pubkey', None)],
                         'tx': [('', 'version', 4), ('', 'locktime', 4)]}[what]:
        new = h.blob('new ' + name, 0, 120) if n is None else h.bytes('new ' + name, n)
        x, y = (a, b) if not obj else (getattr(a, obj)[0], getattr(b, obj)[0])
        old = getattr(y, name)
        setattr(y, name, new)
        same = h.eq(old, new)
        h.check('parts equal exactly if %s is' % name, h.eq(x == y, same))
        h.check('transactions equal exactly if %s is' % name, h.eq(a == b, same))
        setattr(y, name, old)
        h.check('equal again', a == b)


def lengths(h, shape):
    """a transaction with one more or one fewer part is another"""
    from bit.transaction import deserialize
    t = txs.sym_tx(h, shape, False)
    a = deserialize(txs.wire(t, False))
    for k in ('ins', 'outs'):
        b = deserialize(txs.wire(dict(t, **{k: t[k] + [t[k][-1]]}), False))
        h.check('another', h.all([not a == b, not b == a]))


def cases(tier):
    out = []
    for name, shape, segwit in txs.shapes(tier):
        d = '%d inputs, %d outputs%s, scripts of symbolic length and content' % (len(shape[0]), len(shape[1]),
                                                                             ', witnesses' if segwit else '')
        out.append(Case('rt_' + name, roundtrip, d, shape=shape, segwit=segwit, as_hex=False, weight=len(shape[0])))
        out.append(Case('rthex_' + name, roundtrip, d, shape=shape, segwit=segwit, as_hex=True, weight=len(shape[0])))
        out.append(Case('obj_' + name, construct, d, shape=shape, segwit=segwit))
    for name, shape, segwit in txs.shapes(tier)[:8]:
        out.append(Case('rtupper_' + name, roundtrip, 'as rthex, upper case', shape=shape, segwit=segwit, as_hex='upper'))
    sw = dict((n, s) for n, s, _ in txs.shapes('quick'))['sw_mixed']
    out.append(hist.case('twice', 'the same transaction with and without witness', [(roundtrip, {'shape': (sw[0], sw[1], []), 'segwit': False, 'as_hex': True}),
                                                                                    (roundtrip, {'shape': sw, 'segwit': True, 'as_hex': True})]))
    one = ([(0, 40)], [(0, 40)], [[(1, 30)]])
    for what in ('in', 'out', 'tx'):
        out.append(Case('equal_' + what, equality, 'two readings of one transaction, then any value in one field', shape=one, what=what))
    out.append(Case('equal_length', lengths, 'an input or output more', shape=([(0, 40)], [(0, 40)], [])))
    out.append(hist.case('change', 'an object is changed and the same bytes are read again', [(reread, {'shape': sw, 'as_hex': x}) for x in (True, False)]))
    return out
