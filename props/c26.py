"""C26: a key exported to DER or PEM and imported again is the same key on the importing network."""
from symbit.common import Case
from props import hist
from props.c25 import classes, imported, verify

ASSUMPTIONS = ['the DER text is the PKCS#8 structure coincurve writes, and PEM an invertible wrapping of it (both made by coincurve, outside /repo); replays use '
               'the real ones',
               'the curve point of a secret is an uninterpreted function']


def trip(h, net, to, how, form):
    from props import ideal as I, ref
    ideal = I.install(h)
    a, b = classes(net), classes(to)
    n = h.int('n', 1, ref.N - 1)
    k = imported(h, a, how, n, net)
    text = k.to_der() if form == 'der' else k.to_pem()
    h.check_eq('exporting again', k.to_der() if form == 'der' else k.to_pem(), text)
    h.check_eq('what is exported', text, getattr(ideal(n.to_bytes(32, 'big')), 'to_' + form)())
    k2 = b.from_der(text) if form == 'der' else b.from_pem(text)
    h.check('class', type(k2) is b)
    verify(h, k2, n, True, to, ideal)
    h.check('equal', k2 == k)
    h.check_eq('and so on', k2.to_der() if form == 'der' else k2.to_pem(), text)


def brief(h, net, to, form):
    from props import ideal as I, ref
    I.install(h)
    n = h.int('n', 1, ref.N - 1)
    k = classes(net).from_int(n)
    k2 = classes(to).from_der(k.to_der()) if form == 'der' else classes(to).from_pem(k.to_pem())
    h.check('class', type(k2) is classes(to))
    h.check_eq('same key', k2.to_int(), n)
    h.check_eq('same public key', k2.public_key, k.public_key)
    h.check('equal', k2 == k)


def mixed(h, net, form):
    """DER is not taken for PEM, nor PEM for DER"""
    from props import ideal as I, ref
    I.install(h)
    c = classes(net)
    k = c.from_int(h.int('n', 1, ref.N - 1))
    e, r = h.attempt(c.from_pem, k.to_der()) if form == 'der' else h.attempt(c.from_der, k.to_pem())
    h.check('refused', e is not None)


def cases(tier):
    out = []
    for net in ('main', 'test'):
        for form in ('der', 'pem'):
            for to in ('main', 'test'):
                for how in ('int', 'hex', 'bytes', 'wif', 'wif-uncompressed'):
                    out.append(Case('%s_%s_%s_%s' % (form, net, to, how), trip, 'every secret', net=net, to=to, how=how, form=form))
            out.append(Case('mixed_%s_%s' % (form, net), mixed, 'every secret', net=net, form=form))
            out.append(hist.case('%s_%s' % (form, net), 'two keys in a row', [
                (brief, {'net': net, 'to': to, 'form': f}) for to, f in ((net, form), ('main', 'der'))], share=()))
    return out
