"""C15: a wallet never builds a transaction paying an address of the other network."""
from symbit.common import Case
from props import txs, hist

ASSUMPTIONS = ['the mapping from address text to network is C04; here addresses are the 12 forms below or Base58Check of any 20-byte hash',
               'hashes are uninterpreted']
EXTRA = {'main': ['bc1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3qccfmv3', 'BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4'],
         'test': ['tb1qw508d6qejxtdg4y5r3zarvary0c5xw7kxpjzsx', 'bcrt1qw508d6qejxtdg4y5r3zarvary0c5xw7kygt080']}


def wallet(kind, net):
    return hist.shared((kind, net), lambda: new_wallet(kind, net))


def new_wallet(kind, net):
    from bit.wallet import PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet
    kc, mc = (PrivateKey, MultiSig) if net == 'main' else (PrivateKeyTestnet, MultiSigTestnet)
    k = kc.from_int(4711)
    if kind == 'single':
        return k
    return mc(k, [k.public_key, kc.from_int(815).public_key], 2)


def utxo(h, w, i=0, segwit=False):
    from bit.transaction import address_to_scriptpubkey
    addr = w.segwit_address if segwit else w.address
    single = hasattr(w, 'to_wif')
    typ = ('np2wkh' if single else 'np2wsh') if segwit else ('p2pkh' if single else 'p2sh')
    return txs.unspent(h, i, address_to_scriptpubkey(addr), typ, seq=False)


def api(h, kind, net, call, n):
    """n outputs, any mix of networks, and any leftover address"""
    from bit.exceptions import InsufficientFunds
    w = wallet(kind, net)
    us = [utxo(h, w)]
    good = True
    outs = []
    for i in range(n):
        onet = h.fork('net%d' % i, ['main', 'test'])
        pool = txs.DEST[onet] + EXTRA[onet]
        outs.append((pool[h.fork('addr%d' % i, len(pool))] if i == n - 1 else pool[i % 5], h.int('v%d' % i, 1, 21 * 10 ** 14), 'satoshi'))
        good = good and onet == net
    lnet = h.fork('left', [None, 'main', 'test'])
    left = None if lnet is None else (txs.DEST[lnet] + EXTRA[lnet])[h.fork('la', 5)]
    kw = dict(fee=h.int('fee', 1, 1000), leftover=left, unspents=us)
    if call == 'create':
        e, tx = h.attempt(w.create_transaction, outs, **kw)
    else:
        e, tx = h.attempt(type(w).prepare_transaction, w.address, outs, **kw)
    if isinstance(e, InsufficientFunds):
        h.reach('insufficient')
        return
    if not good:
        h.check('refused', isinstance(e, ValueError))
        h.reach('refused')
        return
    if lnet is not None and lnet != net:
        # only acceptable when the foreign leftover address receives nothing
        if e is None:
            if call == 'create':
                cnt = len(txs.parse(h, bytes.fromhex(tx))['outs'])
            else:
                import json
                cnt = len(json.loads(tx)['outputs'])
            h.check_eq('no change to the other network', cnt, n)
        else:
            h.check('refused', isinstance(e, ValueError))
            h.reach('left')
        return
    h.check('accepted', e is None)
    h.reach('accepted')


def brief(h, kind, net):
    """one output, to any form of either network"""
    w = wallet(kind, net)
    us = [utxo(h, w)]
    onet = h.fork('net', ['main', 'test'])
    pool = txs.DEST[onet] + EXTRA[onet]
    dest = pool[h.fork('addr', len(pool))]
    v = h.int('v0', 1, 10 ** 8)
    h.assume(us[0].amount > v + 10 ** 6)
    e, tx = h.attempt(w.create_transaction, [(dest, v, 'satoshi')], fee=5, unspents=us)
    if onet == net:
        h.check('accepted', e is None)
    else:
        h.check('refused', isinstance(e, ValueError))


def payload(h, net, v):
    """Base58Check of any 20-byte hash, each of the four versions"""
    from bit.transaction import sanitize_tx_data
    from bit.base58 import b58encode_check
    from bit.network.meta import Unspent
    p = h.bytes('p', 20)
    data = bytes([v]) + p
    h.assume(data != b'\x00' * 21)
    addr = b58encode_check(data)
    h.assume(addr.lower() != addr)
    h.assume(addr.upper() != addr)
    us = [Unspent(10 ** 9, 1, 'aa', 'ab' * 32, 0)]
    out, left = [(txs.DEST[net][0], 5000, 'satoshi')], txs.DEST[net][1]
    if h.fork('where', 2):
        left = addr
    else:
        out.append((addr, h.int('amount', 1, 10 ** 8), 'satoshi'))
    e, r = h.attempt(sanitize_tx_data, us, out, 10, left, version=net)
    if (v in (0, 5)) == (net == 'main'):
        h.check('accepted', e is None)
        h.reach('accepted')
    else:
        h.check('refused', isinstance(e, ValueError))
        h.reach('refused')


def cases(tier):
    q = tier == 'quick'
    out = []
    for net in ('main', 'test'):
        for kind in ('single', 'multi'):
            for call in ('create', 'prepare'):
                for n in ((1, 2) if q else (1, 2, 3)):
                    out.append(Case('%s_%s_%s_%d' % (call, kind, net, n), api, '%d outputs in any mix of networks and forms' % n, kind=kind,
                                    net=net, call=call, n=n, must=['refused', 'accepted', 'left']))
        for v in (0, 5, 0x6f, 0xc4):
            out.append(Case('payload_%s_%d' % (net, v), payload, 'every 20-byte hash under version byte %d' % v, net=net, v=v, weight=20))
    for kind in ('single', 'multi'):
        out.append(hist.case('networks_' + kind, 'a wallet of each network after the other, the same outputs or others',
                             [(brief, {'kind': kind, 'net': net}) for net in ('main', 'test')], share=('v0', 'u0')))
    return out
