"""C10: the transaction id is the reversed double SHA-256 of the serialisation without witness."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['SHA-256 is uninterpreted', 'well-formed transactions']


def txid(h, shape, segwit):
    from bit.transaction import calc_txid
    from props import ref
    t = txs.sym_tx(h, shape, segwit)
    want = ref.dsha256(txs.legacy(t))[::-1].hex()
    form = h.fork('form', ['hex', 'bytes', 'upper case'])
    raw = txs.wire(t, segwit)
    h.check_eq('txid', calc_txid(raw if form == 'bytes' else raw.hex() if form == 'hex' else raw.hex().upper()), want)


def same_without_witness(h, shape):
    from bit.transaction import calc_txid
    t = txs.sym_tx(h, shape, True)
    u = dict(t)
    u['wit'] = txs.sym_tx(h, ([], [], [[(0, 90)]] * len(shape[0])), True, pre='b')['wit']
    a = calc_txid(txs.wire(t, True).hex())
    h.check_eq('witness not covered', calc_txid(txs.wire(u, True).hex()), a)
    h.check_eq('stripped form', calc_txid(txs.legacy(t).hex()), a)


def cases(tier):
    out = []
    for name, shape, segwit in txs.shapes(tier):
        d = '%d inputs, %d outputs%s, scripts of symbolic length and content' % (len(shape[0]), len(shape[1]),
                                                                             ', witnesses' if segwit else '')
        out.append(Case('txid_' + name, txid, d, shape=shape, segwit=segwit, weight=len(shape[0])))
        if segwit:
            out.append(Case('wit_' + name, same_without_witness, d + '; any other witness', shape=shape))
    out.append(hist.case('txid', 'two transactions that share their outpoints, amounts and scripts where the shapes agree, one with witnesses',
                         [(txid, {'shape': ([(0, 60)], [(0, 40)], []), 'segwit': False}), (txid, {'shape': ([(0, 60)], [(0, 40)], [[(0, 50)]]), 'segwit': True})]))
    out.append(hist.case('txid_two', 'two different transactions of the same shape',
                         [(txid, {'shape': ([(0, 60)], [(0, 40)], []), 'segwit': False})] * 2, share=()))
    return out
